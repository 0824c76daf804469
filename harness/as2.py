TYPES = '''Accept Activity IntransitiveActivity Add Announce Application Arrive Article Audio Block Collection
CollectionPage Relationship Create Delete Dislike Document Event Follow Flag Group Ignore Image Invite Join Leave
Like Link Mention Note Object Offer OrderedCollection OrderedCollectionPage Organization Page Person Place Profile
Question Reject Remove Service TentativeAccept TentativeReject Tombstone Undo Update Video View Listen Read Move
Travel'''.split()
IDS = '''subject relationship actor attributedTo attachment bcc bto cc context current first generator icon image
inReplyTo instrument last location oneOf anyOf origin next object partOf prev preview result replies tag
target to url describes'''.split()
CONTEXT = {'@vocab': '_:', 'xsd': 'http://www.w3.org/2001/XMLSchema#',
           'as': 'https://www.w3.org/ns/activitystreams#', 'ldp': 'http://www.w3.org/ns/ldp#',
           'vcard': 'http://www.w3.org/2006/vcard/ns#', 'id': '@id', 'type': '@type'}
CONTEXT.update({t: 'as:' + t for t in TYPES})
CONTEXT.update({p: {'@id': 'as:' + p, '@type': '@id'} for p in IDS})
CONTEXT.update({'items': {'@id': 'as:items', '@type': '@id'},
                'orderedItems': {'@id': 'as:items', '@type': '@id', '@container': '@list'},
                'href': {'@id': 'as:href', '@type': '@id'},
                'formerType': {'@id': 'as:formerType', '@type': '@id'},
                'audience': {'@id': 'as:audience', '@type': '@id'},
                'content': 'as:content', 'name': 'as:name', 'summary': 'as:summary',
                'contentMap': {'@id': 'as:content', '@container': '@language'},
                'nameMap': {'@id': 'as:name', '@container': '@language'},
                'summaryMap': {'@id': 'as:summary', '@container': '@language'},
                'mediaType': 'as:mediaType', 'hreflang': 'as:hreflang', 'rel': 'as:rel', 'units': 'as:units',
                'closed': {'@id': 'as:closed', '@type': 'xsd:dateTime'}})
CONTEXT.update({p: {'@id': 'as:' + p, '@type': 'xsd:dateTime'}
                for p in 'endTime published startTime updated deleted'.split()})
CONTEXT.update({p: {'@id': 'as:' + p, '@type': 'xsd:float'}
                for p in 'accuracy altitude latitude longitude radius'.split()})
CONTEXT.update({p: {'@id': 'as:' + p, '@type': 'xsd:nonNegativeInteger'}
                for p in 'height width startIndex totalItems'.split()})
CONTEXT['duration'] = {'@id': 'as:duration', '@type': 'xsd:duration'}
