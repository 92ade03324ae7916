BUGS = [
dict(id="twins", prop="C31", needs="two start directories with files of the same relative path, handled by the same process",
     breaks="entries are equal if their relative paths are, so the content attributes of one file are reported for the other",
     edits=[("libff/entry.py", '''    def __repr__(self):
        return f"<{self.__class__.__name__} {self.path!r}>"
''', '''    def __eq__(self, other):
        return self.relpath == other.relpath

    def __hash__(self):
        return hash(self.relpath)

    def __repr__(self):
        return f"<{self.__class__.__name__} {self.relpath!r}>"
''')],
     demo=r'''
mkdir one two; printf 'a\n' > one/f; printf 'a\nb\n' > two/f
same "line counts" "$(ff -j 1 -S path -o path,linecount -D one -D two name=f)" "one/f 1
two/f 2"
'''),
dict(id="reference-plugin", prop="C33", needs="a reference to an attribute of a plugin that nothing else in the query uses",
     breaks="the plugin of the reference is not set up and the query fails",
     edits=[("libff/parser.py", "ref_attribute = self.registry.setup_attribute(reference)",
             "ref_attribute = self.registry.parse_attribute(reference)")],
     demo=r'''
printf 'a\nb\n' > two; printf '123' > three; printf '12' > f
same "size like the line count" "$(ff -S path 'size={grep.linecount}two' 2>&1)" "f"
'''),
dict(id="exclude-missing", prop="C15", needs="several exclude tests, an earlier one on an attribute the entry has no value for",
     breaks="an exclude test on a missing attribute ends the evaluation of the others",
     edits=[("libff/filter.py", """                # Ignore entries that don't provide this attribute.
                continue
""", """                # Ignore entries that don't provide this attribute.
                break
""")],
     demo=r'''
ln -s f l; : > f; mkdir d
same "exclude" "$(ff -S path -e link=nowhere -e name=d)" "f
l"
'''),
dict(id="eleventh-directory", prop="C14", needs="a directory whose number of subdirectories is one more than a multiple of the "
     "chunk size", breaks="the last chunk of directories is not searched if it has only one directory",
     edits=[("libff/walk.py", "for i in range(0, len(search), chunk_size):",
             "for i in range(0, max(1, len(search) - 1), chunk_size):")],
     demo=r'''
for i in 01 02 03 04 05 06 07 08 09 10 11; do mkdir d$i; : > d$i/f; done
same "files" "$(ff -j 4 type=f | wc -l)" "11"
rm -r d11
same "files" "$(ff -j 4 type=f | wc -l)" "10"
'''),
dict(id="older-file", prop="C27", needs="a cached file that is replaced by one with an older modification time",
     breaks="the cache serves values of a newer version of the file",
     edits=[("libff/cache.py", 'where path = ? and tag = ?",', 'where path = ? and tag >= ?",')],
     demo=r'''
mkdir p; cat > p/len.py <<'P'
from libff.plugin import *


class Len(Plugin):
    use_cache = True
    attributes = [("chars", Number, "")]

    def can_handle(self, entry):
        return entry.is_file()

    def cache(self, entry):
        with open(entry.path) as f:
            return len(f.read())

    def process(self, entry, cached):
        yield "chars", cached
P
export FF_PLUGIN_DIRS=$PWD/p
mkdir d; printf 'abc' > d/f; touch -d @1600000002 d/f
same "first" "$(ff --cache c.db -o len.chars -D d 2>&1)" "3"
printf 'abcde' > d/f; touch -d @1600000001 d/f
same "restored" "$(ff --cache c.db -o len.chars -D d 2>&1)" "5"
'''),
dict(id="batch-signal", prop="C26", needs="a batch command that is killed by a signal",
     breaks="a batch command that died of a signal counts as success",
     edits=[("libff/processing.py", "if process.returncode != 0:", "if process.returncode > 0:")],
     demo=r'''
: > f
ff -X sh -c 'kill -9 $$' >/dev/null 2>&1
same "status" "$?" "3"
ff -X true >/dev/null 2>&1
same "status" "$?" "0"
'''),
dict(id="link-loop", prop="C12", needs="a symbolic link that is part of a loop",
     breaks="a link whose chain never ends is not called broken",
     edits=[("libff/entry.py", "self.broken = not os.path.exists(self.target)", "self.broken = not os.path.lexists(self.target)")],
     demo=r'''
ln -s a a; ln -s c b; ln -s b c; ln -s f good; : > f; ln -s nowhere bad
same "broken" "$(ff -S path broken=yes)" "a
b
bad
c"
'''),
dict(id="limit-none", prop="C20", needs="a limit whose end is zero", breaks="a limit of no results yields all of them",
     edits=[("libff/processing.py", "return self.entries[start:stop]", "return self.entries[start:stop or None]")],
     demo=r'''
touch a b c
same "nothing" "$(ff -S path -l :0)" ""
same "two" "$(ff -S path -l :2)" "a
b"
'''),
dict(id="batch-order", prop="C25", needs="a sorted result list that has to be split into more than two batches",
     breaks="the parts of a split batch are run in the wrong order",
     edits=[("libff/processing.py", "remainder = entries[split:] + remainder", "remainder = remainder + entries[split:]")],
     demo=r'''
n=$(printf 'x%.0s' $(seq 200))
mkdir d
cat > mk.py <<'P'
import sys
for i in range(24000):
    open(f"d/{i:05d}" + sys.argv[1], "w").close()
P
python3 mk.py "$n"
cat > show.sh <<'P'
#!/bin/sh
printf '%s\n' "$@"
P
chmod +x show.sh
PATH=$PWD:$PATH ff -S path -D d type=f -X ./show.sh > out
sort -c out
same "order" "$?" "0"
same "all" "$(wc -l < out | tr -d ' ')" "24000"
'''),
dict(id="colour-padding", prop="C42", needs="a padded column whose value is shown in a colour",
     breaks="escape sequences count as characters when a column is padded",
     edits=[("libff/console.py", "fill = max(0, abs(width) - string.length)", "fill = max(0, abs(width) - len(string.value))")],
     demo=r'''
: > a; chmod 755 a; : > b; chmod 644 b; mkdir d
export LS_COLORS="di=01;34:ex=32:rs=0"
same "padded" "$(ff -S path -Calways -o path:5 --sep '|' | sed 's/\x1b\[[0-9;]*m//g')" "    a
    b
    d"
'''),
dict(id="colour-rule-again", prop="C42", needs="an LS_COLORS variable with two rules for the same extension",
     breaks="the first of several rules for an extension wins",
     edits=[("libff/console.py", "self.extensions[ext] = esc(value)", "self.extensions.setdefault(ext, esc(value))")],
     demo=r'''
: > a.t; chmod 644 a.t
export LS_COLORS="*.t=31:di=34:*.t=32"
same "last rule" "$(ff -Calways | sed 's/\x1b/E/g')" "E[32ma.tE[0m"
'''),
dict(id="count-batch", prop="C40", needs="--count together with -X", breaks="--count with -X is not refused, the command is not run either",
     edits=[("libff/arguments.py", "if self.args.count and (self.args.exec or self.args.exec_batch):",
             "if self.args.count and self.args.exec:")],
     demo=r'''
touch a b
ff --count -X echo >/dev/null 2>&1
same "refused" "$?" "2"
ff --count -x echo >/dev/null 2>&1
same "refused with -x" "$?" "2"
'''),
dict(id="hide-warning", prop="C40", needs="a test of hide with -H as well as another of hidden or of hide",
     breaks="the warning about useless tests of hidden entries appears once per test",
     edits=[("libff/filter.py", """with -H/--hide",
                    tag="hide")""", """with -H/--hide",
                    tag=attribute)""")],
     demo=r'''
touch a b
same "warnings" "$(ff -H hide=yes or hidden=no 2>&1 >/dev/null | tr -d ' \n' | grep -o '\-H/--hide' | wc -l)" "1"
'''),
dict(id="debug-list-type", prop="C43", needs="debug mode and a plugin that produces a list of texts with something else among them",
     breaks="lists that hold a single text among other things are taken for lists of texts",
     edits=[("libff/type.py", "return all(isinstance(v, type(String.sort_none)) for v in value)",
             "return any(isinstance(v, type(String.sort_none)) for v in value)")],
     demo=r'''
mkdir ../plugins; cat > ../plugins/odd.py <<'P'
from libff.plugin import *
class Odd(Plugin):
    attributes = [("words", ListOfStrings, "Words.")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        yield "words", {"m": ["x", 7], "e": []}.get(entry.name, ["x", "y"])
P
export FF_PLUGIN_DIRS=$PWD/../plugins
debug() { timeout 60 python3 -m ff --no-cache -j 1 --no-parent-ignore "$@"; }
: > a; : > e
same "right types" "$(debug -S path -o path,odd.words 2>&1)" "a x,y
e "
: > m
debug -S path -o path,odd.words > out 2>&1
same "wrong type" "$?" "10"
'''),
dict(id="cache-relative", prop="C27", needs="two runs in different directories with files of the same relative name, size and time",
     breaks="cached values are stored under the path as it was written",
     edits=[("libff/registry.py", "cached = self.cache.get(plugin, entry.abspath, tag)", "cached = self.cache.get(plugin, entry.path, tag)"),
            ("libff/registry.py", "self.cache.set(plugin, entry.abspath, tag, cached)", "self.cache.set(plugin, entry.path, tag, cached)")],
     demo=r'''
export FF_PLUGIN_DIRS=$repo/plugins
mkdir one two; printf a > one/f; printf b > two/f; touch -d @1000000000 one/f two/f
cached() { timeout 60 python3 -O -m ff --cache="$T/cache.db" -j 1 --no-parent-ignore "$@"; }
cd one; same "first" "$(cached -o md5.md5 name=f)" "$(md5sum < f | cut -c1-32)"
cd ../two; same "second" "$(cached -o md5.md5 name=f)" "$(md5sum < f | cut -c1-32)"
'''),
dict(id="plugin-dir-file", prop="C44", needs="an entry of FF_PLUGIN_DIRS that is no directory, or not accessible, before one that is",
     breaks="only directories that do not exist are passed over when plugins are loaded, others end ff",
     edits=[("libff/registry.py", "            except OSError:\n                continue", "            except FileNotFoundError:\n                continue")],
     demo=r'''
mkdir ../plugins; cat > ../plugins/one.py <<'P'
from libff.plugin import *
class One(Plugin):
    attributes = [("num", Number, "")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        yield "num", 1
P
touch a
export FF_PLUGIN_DIRS=$PWD/a::$PWD/../plugins:/nowhere
same "plugin" "$(ff -o one.num name=a 2>&1)" "1"
'''),
dict(id="plugin-shadow", prop="C44", needs="plugins of one name in two directories of FF_PLUGIN_DIRS",
     breaks="of several plugins of one name the last of the same source is used",
     edits=[("libff/registry.py", "        if plugin_cls.name in self.registered_plugins:",
             "        known = self.registered_plugins.get(plugin_cls.name)\n        if known is not None and known.source != source:")],
     demo=r'''
for d in p q; do
mkdir ../$d; cat > ../$d/one.py <<P
from libff.plugin import *
class One(Plugin):
    attributes = [("num", String, "")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        yield "num", "$d"
P
done
touch a
export FF_PLUGIN_DIRS=$PWD/../p:$PWD/../q
same "first" "$(ff -o one.num name=a 2>/dev/null)" "p"
same "warning" "$(ff -o one.num name=a 2>&1 >/dev/null | grep -c q/one.py)" "1"
'''),
]
