"""More mutants about the way the start directory is written (plugins)."""
P = "../plugins/"
MUTANTS = [
 ("C38", P + "fs.py", "path = os.path.abspath(entry.path)", "path = os.path.abspath(entry.relpath)"),
 ("C38", P + "fs.py", "path = os.path.abspath(entry.dir)", "path = entry.dir"),
 ("C32", P + "git.py", "dirname = entry.abspath if entry.is_dir()", "dirname = entry.path if entry.is_dir()"),
 ("C32", P + "git.py", "os.path.dirname(entry.abspath)", "os.path.dirname(entry.path)"),
 ("C32", P + "git.py", '"repo": repo_dir == entry.abspath', '"repo": repo_dir == os.path.join(os.getcwd(), entry.relpath)'),
 ("C32", P + "git.py", "abspath = entry.abspath + os.sep", "abspath = os.path.realpath(entry.path) + os.sep"),
 ("C32", P + "git.py", "data[key] = entry.abspath in paths", "data[key] = os.path.realpath(entry.path) in paths"),
 ("C31", P + "hash.py", "open(entry.path", "open(entry.relpath"),
 ("C31", P + "introspect.py", 'with open(entry.path, "rb") as fobj:\n                    ', 'with open(entry.relpath, "rb") as fobj:\n                    '),
 ("C31", P + "introspect.py", "self.extract_sonames(entry.path)", "self.extract_sonames(entry.relpath)"),
 ("C31", P + "introspect.py", "self.extract_shebang(entry.path)", "self.extract_shebang(entry.relpath)"),
 ("C31", P + "introspect.py", "dirname = os.path.dirname(entry.abspath)", "dirname = os.path.dirname(entry.path)"),
 ("C31", P + "introspect.py", "Shebang.extract_shebang(entry.path)", "Shebang.extract_shebang(entry.relpath)"),
 ("C31", P + "tar.py", "tarfile.open(entry.path)", "tarfile.open(entry.relpath)"),
 ("C38", P + "pacman.py", "if entry.abspath in self.filelist:", "if os.path.abspath(entry.relpath) in self.filelist:"),
 ("C38", P + "pacman.py", "if entry.abspath in filelist:", "if entry.path in filelist:"),
 ("C38", P + "xattr.py", "os.listxattr(entry.path)", "os.listxattr(entry.relpath)"),
 ("C38", P + "xattr.py", "os.getxattr(entry.path, key)", "os.getxattr(entry.relpath, key)"),
]
