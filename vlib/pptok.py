"""Independent splitting of text into preprocessing tokens (C23 6.4), used to compare preprocessed outputs."""
import re
PUNCT = ['%:%:', '...', '<<=', '>>=', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '*=', '/=', '%=', '+=', '-=', '&=', '^=', '|=', '##', '<:', ':>', '<%', '%>', '%:', '::']
RX = re.compile(r'''(?P<ws>[ \t\n\r\f\v]+)
 |(?P<cm>//[^\n]*|/\*.*?\*/)
 |(?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")
 |(?P<chr>(?:u8|u|U|L)?'(?:\\.|[^'\\\n])*')
 |(?P<num>\.?[0-9](?:[eEpP][+-]|'[0-9A-Za-z_]|[0-9A-Za-z_.])*)
 |(?P<id>[A-Za-z_$\x80-\U0010ffff][A-Za-z0-9_$\x80-\U0010ffff]*)
 |(?P<p>''' + '|'.join(re.escape(p) for p in PUNCT) + r''')
 |(?P<o>.)''', re.X | re.S)
ALT = {'<:': '[', ':>': ']', '<%': '{', '%>': '}', '%:': '#', '%:%:': '##'}


def toks(s, spaces=False):
    out = []
    sp = False
    for m in RX.finditer(s):
        if m.lastgroup in ('ws', 'cm'): sp = True; continue
        out.append((m.group(), sp) if spaces else m.group())
        sp = False
    return out


def strip_markers(s):
    return '\n'.join(l for l in s.split('\n') if not re.match(r'#\s*(line\s+)?\d+\s+"', l))
