"""The ActivityStreams 2.0 vocabulary as the standard defines it (an independent table:
nothing here is read from the code under test)."""
OBJECT = '''id attachment attributedTo audience content context name endTime generator icon image inReplyTo location
preview published replies startTime summary tag updated url to bto cc bcc mediaType duration'''.split()
LINK = 'id href rel mediaType name hreflang height width preview'.split()
ACTIVITY = OBJECT + 'actor object target result origin instrument'.split()
INTRANSITIVE = [p for p in ACTIVITY if p != 'object']
COLLECTION = OBJECT + 'totalItems current first last items'.split()
ORDERED = COLLECTION + ['orderedItems']
PAGE = COLLECTION + 'partOf next prev'.split()
ORDEREDPAGE = PAGE + ['orderedItems', 'startIndex']
TYPES = {'Object': OBJECT, 'Link': LINK, 'Mention': LINK, 'Activity': ACTIVITY, 'IntransitiveActivity': INTRANSITIVE,
         'Collection': COLLECTION, 'OrderedCollection': ORDERED, 'CollectionPage': PAGE,
         'OrderedCollectionPage': ORDEREDPAGE,
         'Question': INTRANSITIVE + 'oneOf anyOf closed'.split(),
         'Relationship': OBJECT + 'subject object relationship'.split(),
         'Place': OBJECT + 'accuracy altitude latitude longitude radius units'.split(),
         'Profile': OBJECT + ['describes'],
         'Tombstone': OBJECT + 'formerType deleted'.split()}
for t in '''Accept TentativeAccept Add Create Delete Follow Ignore Join Leave Like Offer Invite Reject TentativeReject
Remove Undo Update View Listen Read Move Announce Block Flag Dislike'''.split():
    TYPES[t] = ACTIVITY
for t in 'Arrive Travel'.split():
    TYPES[t] = INTRANSITIVE
for t in '''Application Group Organization Person Service Article Document Audio Image Video Note Page
Event'''.split():
    TYPES[t] = OBJECT
COLLECTIONS = ['Collection', 'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage']

# what a property holds: (permitted kinds, may be a list)
KINDS = {}
for p in '''attachment attributedTo audience context generator icon image inReplyTo location preview to bto cc bcc actor
object target result origin instrument items orderedItems oneOf anyOf'''.split():
    KINDS[p] = (['object', 'link', 'address'], True)
KINDS['tag'] = (['object', 'link', 'address', 'dict'], True)
KINDS['subject'] = (['object', 'link', 'address'], False)
for p in 'current first last next prev'.split():
    KINDS[p] = (['page', 'link', 'address'], False)
KINDS['partOf'] = (['collection', 'page', 'link', 'address'], False)
KINDS['replies'] = (['collection', 'page'], False)
KINDS['url'] = (['link', 'address', 'text'], True)
KINDS['describes'] = (['object'], False)
KINDS['relationship'] = (['object', 'text', 'address'], True)
KINDS['formerType'] = (['object', 'text', 'address'], True)
KINDS['content'] = KINDS['summary'] = KINDS['rel'] = (['text', 'address'], True)
KINDS['name'] = (['text', 'address', 'dict'], True)
KINDS['mediaType'] = KINDS['hreflang'] = KINDS['units'] = (['text', 'address'], False)
KINDS['id'] = (['address'], False)
KINDS['href'] = (['address', 'text'], False)
for p in 'published startTime endTime updated deleted'.split():
    KINDS[p] = (['time', 'timetext'], False)
KINDS['closed'] = (['object', 'link', 'address', 'time', 'timetext', 'flag'], True)
KINDS['duration'] = (['span', 'text', 'address'], False)
for p in 'accuracy altitude latitude longitude'.split():
    KINDS[p] = (['number', 'negative', 'real'], False)
KINDS['radius'] = (['number', 'real'], False)
for p in 'height width startIndex totalItems'.split():
    KINDS[p] = (['number'], False)
LINKED = [p for p in KINDS if 'link' in KINDS[p][0]]       # text that is an address becomes a link
