MUTANTS = [
# 0
("C02", "entry.py", '''    def __repr__(self):
        return f"<{self''', '''    def __eq__(self, other):
        return self.relpath == other.relpath

    def __hash__(self):
        return hash(self.relpath)

    def __repr__(self):
        return f"<{self'''),
("C30", "entry.py", '''    def __repr__(self):
        return f"<{self''', '''    def __eq__(self, other):
        return self.relpath == other.relpath

    def __hash__(self):
        return hash(self.relpath)

    def __repr__(self):
        return f"<{self'''),
("C28", "entry.py", '''    def __repr__(self):
        return f"<{self''', '''    def __eq__(self, other):
        return self.relpath == other.relpath

    def __hash__(self):
        return hash(self.relpath)

    def __repr__(self):
        return f"<{self'''),
("C02", "parser.py", '''        except Exception as exc:
            raise UsageError(str(exc)) from exc

        if type_cls.choices''', '''        except (ValueError, KeyError, OSError) as exc:
            raise UsageError(str(exc)) from exc

        if type_cls.choices'''),
("C04", "parser.py", "path_pattern=issubclass(type_cls, Path)", "path_pattern=True"),
("C05", "type.py", 'char == "X" and result & 0o111', 'char == "X" and result & affected & 0o111'),
("C06", "parser.py", "value not in type_cls.choices:", "value.lower() not in type_cls.choices:"),
("C09", "ignore.py", "            pattern = pattern[:-1]\n", '            pattern = pattern.rstrip("/")\n'),
("C09", "ignore.py", 'anchored = pattern.index("/") < len(pattern) - 1', 'anchored = pattern.index("/") < len(pattern.rstrip("/"))'),
("C09", "ignore.py", '[!^]?\\]?(?:', '[!^]?(?:'),
# 10
("C09", "ignore.py", 'part = f"(?!/)[{', 'part = f"[{'),
("C12", "entry.py", "not os.path.exists(self.target)", "not os.path.lexists(self.target)"),
("C12", "entry.py", "    _grp_cache = {}", "    _grp_cache = _pwd_cache"),
("C12", "entry.py", "return int(self.status.st_mtime)", "return self.status.st_mtime_ns // 10 ** 9"),
("C13", "entry.py", '''        return re.sub(r"\\\\([0-7]{3})", lambda match: chr(int(match.group(1), 8)), field)''',
 '''        return field.replace("\\\\040", " ").replace("\\\\134", "\\\\")'''),
("C13", "entry.py", '''        return re.sub(r"\\\\([0-7]{3})", lambda match: chr(int(match.group(1), 8)), field)''',
 '''        return field.replace("\\\\134", "\\\\").replace("\\\\040", " ").replace("\\\\011", "\\t").replace("\\\\012", "\\n")'''),
("C14", "walk.py", "range(0, len(search), chunk_size)", "range(0, max(1, len(search) - 1), chunk_size)"),
("C14", "walk.py", "process = process[100:]", "process = process[101:]"),
("C15", "entry.py", "self.status = os.stat(self.root)", "self.status = os.lstat(self.root)"),
("C17", "context.py", "        if not self.is_stopping():\n            self.stop_queue.put(None)", "        self.stop_queue.put(None)"),
# 20
("C18", "processing.py", '''    def finalize(self):
        if self.args.sort is not None:
            self.entries.sort(key=self.args.sort.render, reverse=self.args.reverse)
''', '''    def finalize(self):
        if self.args.sort is not None:
            self.entries.sort(key=self.args.sort.render)
            if self.args.reverse:
                self.entries.reverse()
'''),
("C18", "type.py", 'return os.sep.join(v.lstrip(".") for v in value.split(os.sep))', 'return value.lstrip(".")'),
("C22", "console.py", "fill = max(0, abs(width) - string.length)", "fill = max(0, abs(width) - len(string.value))"),
("C22", "console.py", 'os.path.join(entry.dir, "")', 'entry.dir + os.sep'),
("C22", "console.py", 'path.length + 4 + len(entry.link)', 'path.length'),
("C24", "field.py", "itertools.chain(*self[1:])", "itertools.chain(*self)"),
("C27", "cache.py", "os.path.lexists(path)", "os.path.exists(path)"),
("C31", "builtin/grep.py", '[line.rstrip("\\n") for line in fobj]', 'fobj.read().splitlines()'),
("C31", "../plugins/introspect.py", '.decode("ascii").rstrip()', '.decode("ascii").strip()'),
("C31", "../plugins/introspect.py", 'ast.walk(ast.parse(data))', 'ast.parse(data).body'),
# 30
("C32", "../plugins/git.py", "line[3:]", "line[2:].strip()"),
("C34", "parser.py", "self.tokens = tokens.copy()", "self.tokens = tokens"),
("C34", "find.py", "args.tests = tests", "args.tests = tests", ),
("C18", "field.py", 'regex_digits = re.compile(r"(\\d+)")', 'regex_digits = re.compile(r"([0-9]+)")'),
("C18", "field.py", "ext[0].isdigit()", "ext.isdigit()"),
("C18", "field.py", "for component in value.split(os.sep)]", "for component in value.strip(os.sep).split(os.sep)]"),
("C22", "console.py", '''        if entry.dir:
            dirname =''', '''        if entry.dir and entry.dir != ".":
            dirname ='''),
("C23", "console.py", "if isinstance(value, set):", "if isinstance(value, frozenset):"),
("C23", "console.py", '''print("]" if self.separator == "," else "[]")''', '''print("]" if self.separator == "," else "")'''),
("C24", "field.py", 'r"({{|}}|{[^}]*})"', 'r"({{|}}|{[^{}]*})"'),
# 40
("C24", "field.py", '''                        if not batch:
                            raise
''', '''                        if not batch:
                            raise
                        break
'''),
("C25", "processing.py", "entries = entries[:split]", "entries = entries[:max(1, split - 1)]"),
("C25", "processing.py", "remainder = entries[split:] + remainder", "remainder = remainder + entries[split:]"),
("C26", "context.py", 'if self.args.halt in ("soon", "now"):', 'if self.args.halt == "now":'),
("C26", "context.py", "exitcode = process.wait(0.1)", "exitcode = process.wait(0.1) and 1"),
("C26", "processing.py", "process.returncode != 0", "process.returncode > 0"),
("C27", "cache.py", "insert or replace into", "insert or ignore into"),
("C27", "cache.py", "where path = ? and tag = ?", "where path = ? and tag >= ?"),
("C28", "registry.py", "except NoData:\n            return {}", "except (NoData, LookupError):\n            return {}"),
("C28", "registry.py", '''                    except NoData:
                        # Do''', '''                    except (NoData, ValueError):
                        # Do'''),
# 50
("C08", "filter.py", '''                except KeyError:
                    # The plugin was''', '''                except LookupError:
                    # The plugin was'''),
("C08", "parser.py", "for seq in sequence:\n            if isinstance(seq, list):", "for seq in sequence[1:]:\n            if isinstance(seq, list):"),
("C08", "filter.py", "yield not any(self._test(test, entry))", "yield not all(self._test(test, entry))"),
("C08", "filter.py", "continue\n\n            # If an entry", "return False\n\n            # If an entry"),
("C10", "ignore.py", "if pattern.match(test_path):", "if not exclude and pattern.match(test_path) or exclude and not key.include and pattern.match(test_path):"),
("C10", "ignore.py", "exclude = key.include", "exclude = exclude or key.include"),
("C10", "walk.py", "ignore_paths = parent.ignore_paths.copy()", "ignore_paths = parent.ignore_paths"),
("C10", "builtin/ignore.py", "paths = tuple(paths)\n", "paths = tuple(paths[-8:])\n"),
("C01", "walk.py", "if entry.name in self.args.ignore_files:", "if entry.is_dir() is False and entry.name in self.args.ignore_files:"),
("C11", "ignore.py", "path = path.lstrip(os.sep)\n\n        if self.regex", "path = os.path.normpath(path).lstrip(os.sep)\n\n        if self.regex"),
# 60
("C16", "main.py", "if self.context.args.absolute_path:", "if self.context.args.absolute_path and not os.path.isabs(path):"),
("C20", "processing.py", "return self.entries[start:stop]", "return self.entries[start:stop or None]"),
("C35", "main.py", 'elif self.args.fail and not self.context.has_result()', 'elif self.args.fail and not self.context.has_result() and not self.args.count'),
("C29", "registry.py", '''            if "file" in plugin_names:''', '''            if "file" in plugin_names and len(plugin_names) == 1:'''),
("C29", "registry.py", 'direntry.name.endswith(".py")', 'direntry.name.lower().endswith(".py")'),
("C29", "registry.py", "not direntry.is_file() or", "not direntry.is_file(follow_symlinks=False) or"),
("C29", "registry.py", '''            except OSError:
                continue

        # Sort''', '''            except OSError:
                break

        # Sort'''),
("C33", "argparse.py", 'long_option, value = argv.pop(0).split("=", 1)', 'long_option, value = argv.pop(0).rsplit("=", 1)'),
("C19", "parser.py", "ref_attribute = self.registry.setup_attribute(reference)", "ref_attribute = self.registry.parse_attribute(reference)"),
("C12", "entry.py", "return self.relpath.count(os.sep)", "return self.path.count(os.sep)"),
# 70
("C12", "entry.py", "if self.is_dir() or self.is_symlink():\n            return False", "if not self.is_file():\n            return False"),
("C12", "entry.py", "return any(part.startswith(\".\") for part in self.path.split(os.sep))", "return any(part.startswith(\".\") for part in self.relpath.split(os.sep))"),
("C12", "path.py", 'if path[idx:idx+1] != ".":', 'if path[idx:idx+1].isalnum():'),
("C36", "builtin/media.py", "int(duration / 1000)", "round(duration / 1000)"),
("C21", "processing.py", "item[0].isdecimal()", "item[0].isdigit()"),
("C21", "processing.py", "self.entries += entries\n\n    def finalize(self):\n        if", "self.entries = entries + self.entries\n\n    def finalize(self):\n        if"),
("C39", "walk.py", "and \\\n                        len(entries) > 10:", "and \\\n                        len(entries) >= 1:"),
("C14", "walk.py", "self.queue.put(Entries(parent, entries[split:]))", "self.queue.put(Entries(parent, entries[split + 1:]))"),
("C14", "walk.py", "split = len(entries) // 2 + 1", "split = len(entries) // 2 + len(entries)"),
("C03", "type.py", 'test.operator == "~" and test.value.search(value) is not None\n\n    @classmethod\n    def sort_key(cls, value):\n        return value.lower()\n\n\nclass Path', 'test.operator == "~" and bool((test.value.search(value) or [""])[0])\n\n    @classmethod\n    def sort_key(cls, value):\n        return value.lower()\n\n\nclass Path'),
]
