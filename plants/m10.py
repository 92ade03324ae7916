"""Memoisation under the wrong key: something of one entry is reported for another."""
MUTANTS = [
 ("C31","../plugins/hash.py",'            h = hashlib.new(self.name)\n','            memo = vars(type(self)).get("memo")\n            if memo and memo[0] == (entry.size, entry.name):\n                return memo[1]\n            h = hashlib.new(self.name)\n',
   "../plugins/hash.py",'            return self.name, h.hexdigest()\n','            type(self).memo = (entry.size, entry.name), (self.name, h.hexdigest())\n            return self.name, h.hexdigest()\n'),
 ("C31","../plugins/hash.py",'    speed = Speed.SLOW\n','    speed = Speed.SLOW\n    buf = hashlib.md5()\n',"../plugins/hash.py",'h = hashlib.new(self.name)','h = self.__dict__.setdefault("h", hashlib.new(self.name))'),
 ("C32","../plugins/git.py",'self._cache[dirname] = self.find_repo(os.path.dirname(dirname))','self._cache[dirname] = self._cache[os.path.dirname(dirname)] = self.find_repo(os.path.dirname(dirname))'),
 ("C32","../plugins/git.py",'self._cache[dirname] = self.find_repo(os.path.dirname(dirname))','return self._cache.setdefault(os.path.basename(dirname), self.find_repo(os.path.dirname(dirname)))'),
 ("C32","../plugins/git.py",'        if dirname not in self._cache:\n            path','        if dirname not in self._cache and os.path.dirname(dirname) in self._cache and self._cache[os.path.dirname(dirname)][0]:\n            return self._cache[os.path.dirname(dirname)]\n        if dirname not in self._cache:\n            path'),
 ("C31","../plugins/tar.py",'                return set(name for name in tar.getnames())','                self.names = getattr(self, "names", set()) | set(tar.getnames())\n                return self.names'),
 ("C38","../plugins/xattr.py",'        xattrs = []\n        try:','        xattrs = self.__dict__.setdefault("x", [])\n        try:'),
 ("C38","../plugins/xattr.py",'        except OSError:\n            pass\n','        except OSError:\n            xattrs = getattr(self, "last", xattrs)\n        self.last = xattrs\n'),
 ("C38","../plugins/fs.py",'            name, remote = self.get_fs_type(path)','            memo = self.__dict__.setdefault("memo", {})\n            if entry.root not in memo:\n                memo[entry.root] = self.get_fs_type(path)\n            name, remote = memo[entry.root]'),
 ("C38","../plugins/fs.py",'            name, remote = self.get_fs_type(path)','            memo = self.__dict__.setdefault("memo", {})\n            if entry.name not in memo:\n                memo[entry.name] = self.get_fs_type(path)\n            name, remote = memo[entry.name]'),
 ("C38","../plugins/fs.py",'            name, remote = self.get_fs_type(path)','            memo = self.__dict__.setdefault("memo", {})\n            if entry.device not in memo:\n                memo[entry.device] = self.get_fs_type(path)\n            name, remote = memo[entry.device]'),
 ("C31","../plugins/introspect.py",'        shebang = self.extract_shebang(entry.path)\n        if shebang','        shebang = self.__dict__.setdefault("m", {}).setdefault(entry.status.st_ino, self.extract_shebang(entry.path))\n        if shebang'),
 ("C31","../plugins/introspect.py",'        shebang = self.extract_shebang(entry.path)\n        if shebang','        shebang = self.extract_shebang(entry.path) or getattr(self, "last", None)\n        self.last = shebang\n        if shebang'),
 ("C31","../plugins/introspect.py",'        shebang = Shebang.extract_shebang(entry.path)\n        return','        shebang = self.__dict__.setdefault("m", {}).setdefault(entry.relpath, Shebang.extract_shebang(entry.path))\n        return'),
 ("C36","builtin/mime.py",'            detected = magic.detect_from_filename(entry.path)\n','            memo = self.__dict__.setdefault("memo", {})\n            if entry.ext not in memo:\n                memo[entry.ext] = magic.detect_from_filename(entry.path)\n            detected = memo[entry.ext]\n'),
 ("C36","builtin/mime.py",'            detected = magic.detect_from_filename(entry.path)\n','            memo = self.__dict__.setdefault("memo", {})\n            if (entry.relpath, entry.size) not in memo:\n                memo[entry.relpath, entry.size] = magic.detect_from_filename(entry.path)\n            detected = memo[entry.relpath, entry.size]\n'),
 ("C36","builtin/media.py",'        cached = {}\n\n        tracks','        cached = self.__dict__.setdefault("c", {})\n\n        tracks'),
 ("C36","builtin/media.py",'            tracks = {}\n','            tracks = self.__dict__.setdefault("t", {})\n'),
 ("C12","entry.py",'self._grp_cache[self.status.st_gid]','self._pwd_cache[self.status.st_gid]'),
 ("C12","entry.py",'    _grp_cache = {}','    _grp_cache = _pwd_cache'),
 ("C12","entry.py",'            return self._pwd_cache[uid]\n','            return self._pwd_cache.setdefault(uid + 1, self._pwd_cache[uid])\n'),
 ("C10","builtin/ignore.py",'        if paths not in self.ignores_cache:','        paths = tuple(paths)\n        if paths not in self.ignores_cache and (len(paths) < 2 or (paths := paths[-1:]) not in self.ignores_cache):'),
 ("C31","builtin/grep.py",'                    lines = [line.rstrip("\\n") for line in fobj]','                    lines = self.__dict__.setdefault("l", {}).setdefault((entry.name, entry.size), [line.rstrip("\\n") for line in fobj])'),
]
