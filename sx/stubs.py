"""Environment stubs for symbolic mode (listed in DESIGN.md)."""
from . import core
from .strings import SymStr
from .values import SymBool, SymInt, SymReal, Sym


def pyld_expand(real):
    """pyld.jsonld.expand on documents with symbolic leaves: the real expansion runs on
    the document with a distinct stand-in for every symbolic value, which is put back
    into the result (expansion only passes values through; symbolic @type values and keys
    are outside the model)."""
    def expand(input_, options=None, *args, **kw):
        stand = {}

        def out(v, key=None):
            if isinstance(v, dict):
                for k in v:
                    if isinstance(k, Sym):
                        raise core.Unsupported('symbolic key in a JSON-LD document')
                return {k: out(x, k) for k, x in v.items()}
            if type(v) in (list, tuple):
                return [out(x, key) for x in v]
            if isinstance(v, Sym):
                if key in ('type', '@type', '@context', '@vocab', '@base'):
                    raise core.Unsupported('symbolic %s in a JSON-LD document' % key)
                n = len(stand)
                if type(v) is SymBool:
                    s = True
                elif type(v) is SymInt:
                    s = 918273000 + n
                elif type(v) is SymReal:
                    s = 918273000.5 + n
                elif type(v) is SymStr:
                    s = 'https://stand-in.invalid/%d' % n
                else:
                    raise core.Unsupported('%s in a JSON-LD document' % type(v).__name__)
                if s is not True:
                    stand[s] = v
                return s
            return v

        def back(v):
            if isinstance(v, dict):
                return {k: back(x) for k, x in v.items()}
            if type(v) is list:
                return [back(x) for x in v]
            if type(v) in (str, int, float) and v in stand:
                return stand[v]
            return v
        doc = out(input_)
        if not stand:
            return real(input_, options, *args, **kw)
        return back(real(doc, options, *args, **kw))
    return expand


def email(real):
    """validate_email on symbolic text: text without "@" is no address (every alternative
    of the library's expression contains it); other symbolic text is outside the model."""
    def validate_email(text, *args, **kw):
        if type(text) is SymStr:
            if '@' in text:
                raise core.Unsupported('symbolic e-mail address')
            return False
        return real(text, *args, **kw)
    return validate_email


def install():
    from . import vfs
    vfs.install()
    import pyld.jsonld
    pyld.jsonld.expand = pyld_expand(pyld.jsonld.expand)
    import validate_email
    validate_email.validate_email = email(validate_email.validate_email)
