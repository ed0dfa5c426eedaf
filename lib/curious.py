"""Byte strings somebody might think deserve special treatment (they don't)."""
TEXT = [  # without NUL: names, values, arguments, messages
    b'\xef\xbb\xbf', b'\xef\xbb\xbfx', b'\xff\xfex', b'\xfe\xffx', b'x\r\ny\r\n', b'\r', b'\r\n', b'\n', b'x\n', b'\nx', b'x\n\n', b'\n\n\n', b' x', b'x ', b'  ', b'\tx\t', b'x\ty', b'\x0b', b'\x0c', b'\x85', b'\xc2\x85', b'\xc2\xa0x', b'\xe2\x80\xa8',
    b'\xe2\x80\xaex', b'\xe2\x80\x8b', b'e\xcc\x81', b'\xc3\xa9', b'\xf0\x9f\x92\xa9', b'\xed\xa0\x80', b'\xc0\xaf', b'\xe9', b'\x80', b'\xff',
    b'#x', b'# x\ny', b'x # y', b'//x', b'--x', b'-', b'--', b'-x', b'/* x */', b'; x', b'!x', b'"x"', b"'x'", b'`x`', b'"', b"'", b'x\\', b'\\', b'\\n', b'\\x41', b'\\0', b'\\%u', b'x\\\ny', b'^[', b'^C',
    b'$HOME', b'${HOME}', b'$(id)', b'~', b'~/x', b'*', b'?', b'[x]', b'{x}', b'{}', b'{0}', b'%', b'%%', b'%s', b'%n', b'%5d', b'100%', b'%1$s', b'&amp;', b'<b>', b'%41', b'%0a', b'=?utf-8?q?x?=',
    b'\x1b', b'\x1b[', b'\x1b[m', b'\x1b[0m', b'\x1b[2J', b'\x1b[H\x1b[2J', b'\x1bc', b'\x1b[6n', b'\x1b[c', b'\x1b[>c', b'\x1b[?1049h', b'\x1b[?1049l', b'\x1b[?25l', b'\x1b]0;t\x07', b'\x1b]52;c;eA==\x07', b'\x1b]8;;u\x1b\\x', b'\x1bP+q\x1b\\', b'\x1b[8;1;1t', b'\x1b[8;24;80t', b'\x1b[21t', b'\x1b[200~x\x1b[201~', b'\x1b7\x1b8', b'\x1b(0', b'\x9b31m', b'\x0e\x0f', b'\x07', b'x\x08y', b'\x7f', b'\x01', b'\x03', b'\x04', b'\x05', b'\x11\x13', b'\x18', b'\x1a', b'\x1c',
    b'y', b'Y', b'n', b'yes', b'no', b'true', b'false', b'null', b'none', b'(null)', b'nil', b'undefined', b'unknown', b'0', b'-1', b'1', b'00', b'default', b'root', b'sudo', b'password: x', b'Password:', b'x@y.z', b'x.y.z', b'localhost', b'127.0.0.1', b'::1', b'a:b', b'a,b', b'a=b', b'a;b', b'a|b', b'a/b', b'/', b'//', b'/a/', b'/a/../b', b'/./a', b'..', b'.', b'a b  c',
]
BLOB = TEXT + [b'', b'\0', b'x\0y', b'\0x', b'x\0', b'\0\0\0', b'\x89PNG\r\n\x1a\n\0', b'\x7fELF', b'\x1f\x8b\x08', b'PK\x03\x04', b'#!/bin/sh\n', b'%PDF', b'\xff\xfd\x18', b'\xff\xff\xff', b'\x1a\x45', b'x' * 80 + b'\r', b'\xef\xbb\xbf\r\n', b'x\r\n\0']
def rot(l, k): k %= len(l); return l[k:] + l[:k]
def ok(b):
    try: b.decode(); return True
    except UnicodeDecodeError: return False
