"""Mutants about the way the start directory is written."""
MUTANTS = [
 ("C13", "entry.py", "self._mountpoints.get(self.abspath)[0]", "self._mountpoints.get(os.path.abspath(self.relpath))[0]"),
 ("C13", "entry.py", "self._mountpoints.get(self.abspath)[1]", "self._mountpoints.get(self.path)[1]"),
 ("C13", "entry.py", "self._mountpoints.get(self.abspath)[2]", "self._mountpoints.get(os.path.realpath(self.path))[2]"),
 ("C31", "builtin/grep.py", "open(entry.path)", "open(entry.relpath)"),
 ("C10", "builtin/ignore.py", "GitIgnore.match(ignores, entry.abspath, entry.name, entry.is_dir())", "GitIgnore.match(ignores, entry.path, entry.name, entry.is_dir())"),
 ("C36", "builtin/mime.py", "magic.detect_from_filename(entry.path)", "magic.detect_from_filename(entry.relpath)"),
 ("C36", "builtin/media.py", "pymediainfo.MediaInfo.parse(entry.path", "pymediainfo.MediaInfo.parse(entry.relpath"),
 ("C27", "registry.py", "self.cache.get(plugin, entry.abspath, tag)", "self.cache.get(plugin, entry.path, tag)", "registry.py", "self.cache.set(plugin, entry.abspath, tag, cached)", "self.cache.set(plugin, entry.path, tag, cached)"),
 ("C27", "registry.py", "self.cache.get(plugin, entry.abspath, tag)", "self.cache.get(plugin, os.path.realpath(entry.abspath), tag)", "registry.py", "self.cache.set(plugin, entry.abspath, tag, cached)", "self.cache.set(plugin, os.path.realpath(entry.abspath), tag, cached)"),
 ("C12", "entry.py", "with os.scandir(self.path) as entries:", "with os.scandir(self.relpath) as entries:"),
 ("C14", "walk.py", "os.scandir(join(parent.start.root, parent.relpath))", "os.scandir(join(parent.start.absroot, parent.relpath))"),
 ("C11", "entry.py", "self.path = join(self.root, self.relpath) if self.root != \".\" else self.relpath", "self.path = join(self.root, self.relpath).removeprefix('./')"),
 ("C10", "walk.py", "ignore_paths.append(entry.abspath)", "ignore_paths.append(os.path.abspath(entry.relpath))"),
 ("C10", "walk.py", "ignore_paths.append(entry.abspath)", "ignore_paths.append(entry.path)"),
]
