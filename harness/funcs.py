"""Pieces shared by the harnesses of the XACML functions."""
from harness.common import *

#: type name in function identifiers -> data type URI
TYPE_OF = {
    'string': XS + 'string', 'boolean': XS + 'boolean',
    'integer': XS + 'integer', 'double': XS + 'double', 'date': XS + 'date',
    'time': XS + 'time', 'dateTime': XS + 'dateTime',
    'dayTimeDuration': 'http://www.w3.org/TR/2002/WD-xquery-operators-'
                       '20020816#dayTimeDuration',
    'yearMonthDuration': 'http://www.w3.org/TR/2002/WD-xquery-operators-'
                         '20020816#yearMonthDuration',
    'anyURI': XS + 'anyURI',
    'x500Name': 'urn:oasis:names:tc:xacml:1.0:data-type:x500Name',
    'rfc822Name': 'urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name',
    'hexBinary': XS + 'hexBinary', 'base64Binary': XS + 'base64Binary',
    'ipAddress': 'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress',
    'dnsName': 'urn:oasis:names:tc:xacml:2.0:data-type:dnsName',
    'xpath-node': XS + 'string',
}
#: data types whose values can be made (base64Binary has no native type)
TYPES = [t for t in TYPE_OF if t not in ('base64Binary', 'xpath-node')]
STRINGS = ('string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress',
           'dnsName', 'xpath-node')
EQUAL_TYPES = [t for t in ('string', 'boolean', 'integer', 'double', 'date',
                           'time', 'dateTime', 'dayTimeDuration',
                           'yearMonthDuration', 'anyURI', 'x500Name',
                           'rfc822Name', 'hexBinary', 'xpath-node')]
MATCH_TYPES = ['x500Name', 'rfc822Name', 'xpath-node']
REGEXP = [(FN1, 'string')] + [(FN2, t) for t in (
    'anyURI', 'ipAddress', 'dnsName', 'rfc822Name', 'x500Name')]
BAG_TYPES = [t for t in EQUAL_TYPES if t != 'xpath-node']
#: kinds of argument that are not an attribute value at all
NATIVE = ['none', 'str', 'int', 'bool', 'float', 'list', 'bag', 'duck']


def function(ident):
    from ndg.xacml.core.functions import functionMap
    return functionMap[ident]()


def native(ctx, tag, tname, maxlen=6):
    """Arbitrary native content of a data type."""
    if tname in STRINGS:
        return ctx.str(tag, maxlen=maxlen)
    if tname == 'boolean':
        return ctx.bool(tag)
    if tname in ('integer', 'hexBinary'):
        return ctx.int(tag, -10 ** 30, 10 ** 30)
    if tname == 'double':
        return ctx.float(tag)
    if tname in ('date', 'time', 'dateTime'):
        return ctx.datetime(tag)
    return ctx.timedelta(tag)


def value(ctx, tag, tname, maxlen=6):
    return attr_class(TYPE_OF[tname])(native(ctx, tag, tname, maxlen))


def plain_value(tname):
    """A fixed value of a data type."""
    from datetime import datetime, timedelta
    C = attr_class(TYPE_OF[tname])
    if tname in STRINGS:
        return C('x')
    return C({'boolean': True, 'integer': 1, 'hexBinary': 1, 'double': 1.0,
              'date': datetime(2020, 1, 1), 'time': datetime(2020, 1, 1),
              'dateTime': datetime(2020, 1, 1),
              'dayTimeDuration': timedelta(1),
              'yearMonthDuration': timedelta(1)}[tname])


def argument(ctx, tag, kind):
    """An argument of one of the kinds TYPES + NATIVE."""
    from ndg.xacml.utils import TypedList
    if kind in TYPE_OF:
        return plain_value(kind)

    class Duck(object):
        value = 'x'
        dataType = XS + 'string'
    return {'none': lambda: None, 'str': lambda: ctx.str(tag, maxlen=3),
            'int': lambda: ctx.int(tag, -2, 2),
            'bool': lambda: ctx.bool(tag), 'float': lambda: 1.0,
            'list': lambda: [plain_value('string')],
            'bag': lambda: TypedList(attr_class(STRING)),
            'duck': Duck}[kind]()


def load_all():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy
    import ndg.xacml.core.functions as f
    for n in f.XacmlFunctionNames.FUNCTION_NAMES:
        try:
            f.functionMap[n]
        except Exception:
            pass
