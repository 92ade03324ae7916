"""Mutants for C42 and C12."""
MUTANTS = [
 ("C42", "console.py", 'if key.isalpha() and len(key)' if 0 else 'if len(key) == 2 and key.isalpha():', 'if len(key) == 2:'),
 ("C42", "console.py", 'part.split("=", 1)', 'part.split("=")'),
 ("C42", "console.py", 'rules[key] = value', 'rules.setdefault(key, value)'),
 ("C42", "console.py", 'self.extensions[ext] = esc(value)', 'self.extensions.setdefault(ext, esc(value))'),
 ("C42", "console.py", 'os.path.splitext(key)[1][1:]', 'key.partition(".")[2]'),
 ("C42", "console.py", 'os.path.splitext(key)[1][1:]', 'key[2:]'),
 ("C42", "console.py", 'return f"\\x1b[{seq}m" if seq else ""', 'return f"\\x1b[{seq}m"'),
 ("C42", "console.py", 'if entry.is_symlink() and not self.args.follow_symlinks:', 'if entry.is_symlink():'),
 ("C42", "console.py", 'if entry.is_symlink() and not self.args.follow_symlinks:', 'if entry.is_symlink() and entry.link:'),
 ("C42", "console.py", 'fill = max(0, abs(width) - string.length)', 'fill = max(0, abs(width) - len(string.value))'),
 ("C42", "console.py", 'path = String(dirname.value + name.value, dirname.length + name.length)', 'path = String(dirname.value + name.value, dirname.length + len(name.value))'),
 ("C42", "console.py", 'return String(f"{self.extensions[ext]}{name}{self.reset}", len(name))', 'return String(f"{self.extensions[ext]}{name}{self.reset}", len(name + self.reset))'),
 ("C42", "console.py", 'if rule in rules and rules[rule] != "target":', 'if rules.get(rule) != "target":'),
 ("C42", "console.py", 'if rule in rules and rules[rule] != "target":', 'if rules.get(rule) and rules[rule] > "0":'),
 ("C42", "console.py", 'self.render_directory(os.path.join(entry.dir, ""))', 'self.render_directory(entry.dir)'),
 ("C42", "console.py", 'if entry.dir:', 'if entry.dir and entry.dir != entry.root:'),
 ("C42", "console.py", 'if ext in self.extensions:', 'if ext.lower() in self.extensions:'),
 ("C42", "console.py", 'elif entry.is_executable():', 'elif entry.is_executable() and not entry.ext:'),
 ("C42", "entry.py", '(self.perm & stat.S_IXGRP) |', '(self.perm & stat.S_IWGRP & 0) |'),
 ("C42", "entry.py", 'if self.is_dir() or self.is_symlink():', 'if self.is_dir():'),
 ("C42", "processing.py", '"NO_COLOR" not in os.environ and sys.stdout.isatty()', '"NO_COLOR" not in os.environ'),
 ("C42", "processing.py", '"NO_COLOR" not in os.environ and sys.stdout.isatty()', 'sys.stdout.isatty()'),
 ("C42", "processing.py", '"NO_COLOR" not in os.environ and sys.stdout.isatty()', 'os.environ.get("NO_COLOR") != "1" and sys.stdout.isatty()'),
 ("C42", "processing.py", '"NO_COLOR" not in os.environ and sys.stdout.isatty()', '"NO_COLOR" not in os.environ and sys.stdin.isatty()'),
 ("C42", "processing.py", 'if self.args.count is not None:', 'if self.args.count:'),
 ("C42", "console.py", 'path.value + " -> " + entry.link', 'path.value + " -> " + entry.target'),
 ("C42", "console.py", 'if entry.is_symlink() and with_link:', 'if entry.is_symlink() and with_link and not entry.broken:'),
 ("C42", "console.py", 'colors = os.environ.get("LS_COLORS", "")', 'colors = os.environ["LS_COLORS"]'),
 ("C42", "console.py", 'self.colors = dict.fromkeys(("di", "ex", "ln", "or"))', 'self.colors = {}'),
 ("C42", "console.py", 'self.extensions = {}', 'self.extensions = dict(os.environ)'),
 ("C42", "console.py", 'if entry.broken:', 'if not os.path.exists(entry.link):'),
 ("C12", "entry.py", 'os.path.realpath(os.path.join(self.dir, self.link))', 'os.path.realpath(os.path.join(self.root, self.link))'),
 ("C12", "entry.py", 'os.path.realpath(os.path.join(self.dir, self.link))', 'os.path.normpath(os.path.join(os.path.realpath(self.dir), self.link))'),
 ("C12", "entry.py", 'os.path.realpath(os.path.join(self.dir, self.link))', 'os.path.realpath(self.path)'),
 ("C12", "entry.py", 'os.path.realpath(os.path.join(self.dir, self.link))', 'os.path.abspath(os.path.join(self.dir, self.link))'),
 ("C12", "entry.py", 'os.path.realpath(os.path.join(self.dir, self.link))', 'os.path.realpath(join(self.dir, self.link))'),
]
