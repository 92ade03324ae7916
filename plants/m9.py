"""Mutants for C43 (debug mode)."""
MUTANTS = [
 ("C43","logger.py",'print(f"DEBUG:{category}: {message}", file=sys.stderr)','print(f"DEBUG:{category}: {message}")'),
 ("C43","logger.py",'if "all" in self.debug_categories or category','if category'),
 ("C43","logger.py",'or category in self.debug_categories','or "info" in self.debug_categories'),
 ("C43","registry.py",'                if not type_cls.check_type(value):','                if value is not None and not type_cls.check_type(value):'),
 ("C43","type.py",'return all(isinstance(v, type(String.sort_none)) for v in value)','return any(isinstance(v, type(String.sort_none)) for v in value)'),
 ("C43","type.py",'if not isinstance(value, (list, set)):','if not isinstance(value, list):'),
 ("C43","type.py",'return isinstance(value, type(cls.sort_none))','return type(value) is type(cls.sort_none) or value is None'),
 ("C43","type.py",'return isinstance(value, type(cls.sort_none))','return value == cls.sort_none or bool(value)'),
 ("C43","registry.py",'            for key, value in data.items():\n                type_cls','            for key, value in list(data.items())[:1]:\n                type_cls'),
 ("C43","context.py",'if __debug__ and self.args.profile:\n            num_jobs = 1','if __debug__:\n            num_jobs = 1'),
 ("C43","console.py",'if __debug__ and self.args.profile:\n            self.write_line','if __debug__ and self.args.debug != ["none"]:\n            self.write_line'),
 ("C43","walk.py",'                        self.logger.debug_proc(self.index, f"got {len(objs)} Directory entries")','                        self.logger.debug_proc(self.index, f"got {len(objs)} Directory entries {objs.pop().relpath!r}")'),
 ("C43","main.py",'            for line in self.context.matcher.parser.format():\n                self.logger.debug("info", "  " + line)','            for line in self.context.matcher.parser.format():\n                print("  " + line, file=sys.stderr)'),
 ("C43","arguments.py",'if self.args.profile and (self.args.exec or self.args.exec_batch):','if self.args.profile and self.args.exec:'),
 ("C43","registry.py",'if __debug__ and os.path.isdir(git_dir)','if not __debug__ and os.path.isdir(git_dir)'),
]
