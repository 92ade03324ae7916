BUGS = [
dict(id="not-three", prop="C01", needs="a NOT in front of a bracket with three or more OR alternatives",
     breaks="NOT of a bracket looks at the first two alternatives only",
     edits=[("libff/filter.py", "yield not any(self._test(test, entry))",
             "yield not any(self._test(test[:2], entry))")],
     demo=r"""
touch a b c d
same "not bracket" "$(ff -S path not '(' name=a or name=b or name=c ')')" "d"
same "not single" "$(ff -S path not name=a)" "b
c
d"
"""),
dict(id="optimize-nested", prop="C01", needs="a query with tests of differently expensive plugins, with "
     "OR: sorting flattens alternatives with equal scores", breaks="alternatives that only hold slow tests "
     "are dropped when a fast alternative exists",
     edits=[("libff/parser.py", """        sequence.sort(key=self.get_speed_score)

        for seq in sequence:""", """        sequence.sort(key=self.get_speed_score)

        if isinstance(sequence, OR) and len(sequence) > 2:
            # Move the cheapest alternatives to the front.
            sequence[1:] = sorted(sequence[1:], key=len)[:len(set(map(len, sequence))) + 1]

        for seq in sequence:""")],
     demo=r'''
touch a b c d
same "four alternatives" "$(ff -S path name=a or name=b or name=c or name=d)" "a
b
c
d"
'''),
dict(id="close-any", prop="C02", needs="a negated bracket that is never closed",
     breaks="a bracket whose closing token is missing at the very end is accepted",
     edits=[("libff/parser.py", """        if not self.tokens:
            raise ParserError("incomplete sub sequence")
        self.tokens.pop(0)
""", """        if self.tokens:
            self.tokens.pop(0)
        elif sub_sequences.name != "NOT":
            raise ParserError("incomplete sub sequence")
""")],
     demo=r"""
touch a
ff not '(' name=a >/dev/null 2>&1
same "unclosed" "$?" 2
ff not '(' name=a ')' >/dev/null 2>&1
same "fine" "$?" 0
"""),
dict(id="less-equal-zero", prop="C03", needs="a test with -= and a value of zero",
     breaks="-=0 behaves like a test that never holds",
     edits=[("libff/type.py", """test.operator == "-=" and value <= test.value or""",
             """test.operator == "-=" and value and value <= test.value or""")],
     demo=r'''
: > empty; echo x > full
same "size-=0" "$(ff -S path 'size-=0')" "empty"
same "size-=2" "$(ff -S path 'size-=2')" "empty
full"
'''),
dict(id="list-regex-ignorecase", prop="C04", needs="smart case, a substring test and a value with an upper "
     "case letter after the first position", breaks="smart case looks at the first letter only",
     edits=[("libff/parser.py", "ignore_case = value == value.lower()",
             "ignore_case = value[:1] == value[:1].lower()")],
     demo=r'''
touch readMe readme
same "smart" "$(ff -S path name:adM)" "readMe"
same "folds" "$(ff -S path name:adm)" "readMe
readme"
'''),
dict(id="mode-any-special", prop="C05", needs="a ~ test whose bits include set-uid, set-gid or sticky",
     breaks="~ ignores the three special bits",
     edits=[("libff/type.py", """test.operator == "~" and value & test_value != 0""",
             """test.operator == "~" and value & test_value & 0o777 != 0""")],
     demo=r'''
touch a b; chmod 4644 a; chmod 0644 b
same "suid" "$(ff -S path 'perm~u+s')" "a"
'''),
dict(id="type-short-p", prop="C06", needs="a test for 'pipe' on a fifo", breaks="type=pipe never matches",
     edits=[("libff/type.py", """        elif test_value in ("p", "pipe"): # compatible to fd.""",
             """        elif test_value == "p": # compatible to fd.""")],
     demo=r'''
mkfifo q; touch f
same "p" "$(ff type=p)" "q"
same "pipe" "$(ff type=pipe)" "q"
'''),
dict(id="size-kib-b", prop="C07", needs="a unit written as -iB in lower case letters",
     breaks="'kib' counts in powers of 1000",
     edits=[("libff/convert.py", """        base = 1000 if suffix == "B" else 1024""",
             """        base = 1024 if suffix in ("", "IB") and unit[0] != "Z" else 1000""")],
     demo=r'''
py - <<'P' || exit 1
from libff.convert import parse_size
assert parse_size("1zib") == 1024 ** 7, parse_size("1zib")
assert parse_size("1kB") == 1000
P
'''),
dict(id="time-of-day-now", prop="C08", needs="a time of day later than now, on the first day of a month",
     breaks="the most recent occurrence is computed wrongly across a month boundary",
     edits=[("libff/convert.py", "                        time_obj -= datetime.timedelta(days=1)",
             "                        time_obj = time_obj.replace(day=max(1, today.day - 1))")],
     demo=r'''
py - <<'P' || exit 1
import datetime
real_dt, real_d = datetime.datetime, datetime.date
class DT(real_dt):
    @classmethod
    def now(cls, tz=None): return real_dt(2024, 3, 1, 10, 0, 0)
class DD(real_d):
    @classmethod
    def today(cls): return real_d(2024, 3, 1)
datetime.datetime, datetime.date = DT, DD
from libff.convert import parse_time
want = int(real_dt(2024, 2, 29, 11, 0, 0).timestamp())
assert parse_time("11:00") == want, (parse_time("11:00"), want)
P
'''),
dict(id="glob-star-slash", prop="C09", needs="an anchored pattern ending in '*' and an entry below the "
     "directory named by it", breaks="? matches a slash in anchored patterns",
     edits=[("libff/ignore.py", """                part = "[^/]"
""", """                part = "."
""")],
     demo=r'''
mkdir -p a/b; touch a/b/c aXb
same "question mark" "$(ff -S path 'path%a?b/c')" ""
same "anchored" "$(ff -S path 'path%a/b?c')" ""
same "one" "$(ff -S path 'path%a?b')" "aXb"
'''),
dict(id="ignore-group-dirs", prop="C10", needs="a pattern for directories followed by a pattern for all "
     "kinds of entries in the same ignore file", breaks="patterns for directories only and for all entries are "
     "put in the same group",
     edits=[("libff/ignore.py", """            if pattern.get_group_key() != key:
""", """            if key is None or pattern.get_group_key()[:2] != key[:2]:
""")],
     demo=r"""
printf 'build/\n*.o\n' > .gitignore
mkdir build; touch keep.c x.o
same "after directory pattern" "$(ff -S path ignored=yes)" "build
x.o"
"""),
dict(id="ext-dotfile", prop="C11", needs="a file name with several leading dots", breaks="'..x' gets the "
     "extension x", edits=[("libff/path.py", """            if path[idx:idx+1] != ".":
                return""", """            if path[idx:idx+1] != "." or idx > sep + 1:
                return""")],
     demo=r'''
touch ...x .y a.b
same "ext" "$(ff -S path -o ext,namex)" "b a
 ...x
 .y"
'''),
dict(id="exec-group", prop="C12", needs="a file only executable for its group", breaks="exec looks at the "
     "owner's and others' bits only",
     edits=[("libff/entry.py", """        return ((self.perm & stat.S_IXUSR) | (self.perm & stat.S_IXGRP) |
                (self.perm & stat.S_IXOTH)) > 0""", """        return bool(self.perm & (stat.S_IXUSR | stat.S_IXOTH))""")],
     demo=r'''
touch a b c; chmod 610 a; chmod 755 b; chmod 644 c
same "exec" "$(ff -S path exec=yes)" "a
b"
'''),
dict(id="mount-prefix", prop="C13", needs="a mountpoint whose name is a prefix of a sibling directory's name",
     breaks="mountpoints are matched as plain string prefixes",
     edits=[("libff/entry.py", "self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))",
             "self.entries.append((mpath.rstrip(os.sep), devname, fstype))")],
     demo=r'''
py - <<'P' || exit 1
import builtins, io
real = builtins.open
def fake(path, *a, **k):
    if path == "/proc/mounts":
        return io.StringIO("root / ext4 rw 0 0\nx /mnt/a xfs rw 0 0\n")
    return real(path, *a, **k)
builtins.open = fake
from libff.entry import Mountpoints
m = Mountpoints()
assert m.get("/mnt/a/f")[2] == "xfs"
assert m.get("/mnt/ab/f")[2] == "ext4", m.get("/mnt/ab/f")
P
'''),
]
