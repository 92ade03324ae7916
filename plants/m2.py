"""Edits tried against the checks (tools/mutants.py), written from the properties and the code."""
MUTANTS = [
    # C01, C02: parser and filter
    ("C01", "filter.py", "yield not any(self._test(test, entry))", "yield not all(self._test(test, entry))"),
    ("C01", "filter.py", "            if type_cls.test(entry, test, value):\n                return True\n\n        return False", "            return type_cls.test(entry, test, value)\n\n        return False"),
    ("C01", "parser.py", "        sequence.sort(key=self.get_speed_score)\n\n        for seq in sequence:\n            if isinstance(seq, list):\n                self.optimize(seq)", "        sequence.sort(key=self.get_speed_score)\n\n        for i, seq in enumerate(sequence):\n            if isinstance(seq, list):\n                self.optimize(seq)\n                if len(seq) == 1:\n                    sequence[i] = seq[0]"),
    ("C01", "parser.py", "            elif utoken == \"OR\":\n                sequences.append(AND())", "            elif utoken == \"OR\":\n                if sequences[-1]:\n                    sequences.append(AND())"),
    ("C02", "parser.py", "            elif utoken == \"OR\":\n                sequences.append(AND())", "            elif utoken == \"OR\":\n                if sequences[-1]:\n                    sequences.append(AND())"),
    ("C02", "parser.py", "        if len(sequences) > 1 and any(not seq for seq in sequences):", "        if len(sequences) > 1 and not sequences[-1]:"),
    ("C02", "parser.py", "                if any(not seq for seq in sequences):\n                    raise ParserError(\"empty expression\")\n                self.tokens", "                if not any(sequences):\n                    raise ParserError(\"empty expression\")\n                self.tokens"),
    ("C01", "parser.py", "                if utoken in self.OPENING_BRACKETS:\n                    self.tokens.pop(0)\n                    self.parse_bracket_sequence(sequences, NOT(AND()))", "                if utoken == \"(\":\n                    self.tokens.pop(0)\n                    self.parse_bracket_sequence(sequences, NOT(AND()))"),
    ("C01", "parser.py", "            utoken = token.upper()\n\n            if token in self.OPENING_BRACKETS:", "            utoken = token.upper() if len(token) != 2 else token\n\n            if token in self.OPENING_BRACKETS:"),
    ("C01", "parser.py", "                utoken = self.tokens[0].upper()\n", "                utoken = self.tokens[0]\n"),
    ("C02", "parser.py", "                utoken = self.tokens[0].upper()\n", "                utoken = self.tokens[0]\n"),
    ("C01", "filter.py", "        return not list(itertools.chain.from_iterable(self.parser))", "        return not list(self.parser)"),
    ("C01", "filter.py", "                except KeyError:\n                    # The plugin was", "                except (KeyError, IndexError):\n                    # The plugin was"),
    ("C01", "registry.py", "    @functools.lru_cache(maxsize=128)\n    def get_data", "    @functools.lru_cache(maxsize=2)\n    def get_data"),
    # C03
    ("C03", "type.py", "test.operator == \"-=\" and value <= test.value or", "test.operator == \"-=\" and value < test.value + 1 or"),
    ("C03", "type.py", "        if value < 0:\n            raise ValueError(\"value must not be less than 0\")\n        return value", "        return abs(value)"),
    ("C03", "parser.py", "                                  r\"\\s*(.+)\\s*$\")", "                                  r\"(.+)$\")"),
    ("C03", "parser.py", "operator = operator.replace(\">\", \"+\").replace(\"<\", \"-\")", "operator = operator.replace(\">\", \"+\").replace(\"<=\", \"-\").replace(\"<\", \"-\")"),
    # C04
    ("C04", "type.py", "test.operator == \"~\" and test.value.search(value) is not None\n\n    @classmethod\n    def sort_key", "test.operator == \"~\" and test.value.match(value) is not None\n\n    @classmethod\n    def sort_key"),
    ("C04", "parser.py", "            if ignore_case and operator != \"~\":\n                value = value.lower()", "            if ignore_case:\n                value = value.lower()"),
    ("C04", "parser.py", "ignore_case = value == value.lower()", "ignore_case = not value[:1].isupper()"),
    ("C04", "parser.py", "ignore_case = value == value.lower()", "ignore_case = value.islower()"),
    ("C04", "type.py", "        return any(String.test(entry, test, v) for v in value)", "        return any(String.test(entry, test, v) for v in value if v)"),
    ("C04", "type.py", "            basename = entry.name.lower() if test.ignore_case else entry.name", "            basename = os.path.basename(value)"),
    ("C04", "type.py", "            basename = entry.name.lower() if test.ignore_case else entry.name", "            basename = entry.name"),
    # C05
    ("C05", "type.py", "value & test_value == test_value or", "value & test_value == test_value and test_value or"),
    ("C05", "type.py", "                if not affected_str:\n                    affected_str = \"a\"", "                if not affected_str:\n                    affected_str = \"ugo\""),
    ("C05", "type.py", "affected |= stat.S_ISVTX | stat.S_IRWXO", "affected |= stat.S_IRWXO"),
    ("C05", "type.py", "char == \"X\" and result & 0o111:", "char == \"X\" and val & 0o111:"),
    ("C05", "type.py", "                result &= ~affected", "                result &= ~(affected & 0o777)"),
    ("C05", "type.py", "match = cls.regex.fullmatch(part)", "match = cls.regex.match(part)"),
    # C06
    ("C06", "type.py", "value.lower() not in cls.true + cls.false", "value.lower() not in \",\".join(cls.true + cls.false)"),
    ("C06", "type.py", "elif test_value in (\"p\", \"pipe\"):", "elif test_value == \"p\":"),
    ("C06", "type.py", "        return value.lower() in cls.true", "        return value in cls.true"),
    # C07
    ("C07", "convert.py", "return int(integer + fraction) * base ** exp // 10 ** len(fraction)", "return int(float(number) * base ** exp)"),
    ("C07", "convert.py", "return int(integer + fraction) * base ** exp // 10 ** len(fraction)", "return int(integer) * base ** exp + int(fraction or 0) * base ** exp // 10 ** len(fraction)"),
    ("C07", "convert.py", "base = 1000 if suffix == \"B\" else 1024", "base = 1024 if suffix in (\"\", \"iB\") else 1000"),
    ("C07", "convert.py", "(\\d+(?:[\\.]\\d+)?)(", "(\\d+(?:.\\d+)?)("),
    # C08
    ("C08", "convert.py", "if match.start(0) != end:", "if match.start(0) < end:"),
    ("C08", "convert.py", "                    if time_obj > now:", "                    if time_obj >= now:"),
    ("C08", "convert.py", "                        time_obj -= datetime.timedelta(days=1)", "                        time_obj = time_obj.replace(day=today.day - 1)"),
    ("C08", "convert.py", "return int(time_obj.timestamp())", "return int(time.mktime(time_obj.timetuple()[:8] + (0,)))"),
    ("C08", "convert.py", "return int(time.time() - parse_duration(string))", "return int(time.time()) - parse_duration(string) % 31536000"),
    ("C08", "convert.py", "\"%Y%m%d\": 8, \"%H%M\": 4}", "\"%Y%m%d\": 8}"),
    ("C08", "convert.py", "    if string.isdecimal():\n        return int(string) * 60", "    if string.isdigit() and len(string) < 5:\n        return int(string) * 60"),
    # C09
    ("C09", "ignore.py", "                part = \"(?:/|/(?s:.+)/)\"", "                part = \"(?:/|/[^/]+/)\""),
    ("C09", "ignore.py", "part = \"(?:/(?s:.+))?\"", "part = \"/(?s:.+)\""),
    ("C09", "ignore.py", "anchored = pattern.index(\"/\") < len(pattern) - 1", "anchored = pattern.index(\"/\") > 0"),
    ("C09", "ignore.py", "start = 2 if part[1] in \"!^\" else 1", "start = 2 if part[1] == \"!\" else 1"),
    ("C09", "ignore.py", "part = f\"(?!/)[{'^' if start == 2 else ''}{chars}]\"", "part = f\"[{'^' if start == 2 else ''}{chars}]\""),
    ("C09", "ignore.py", "if part.startswith(\"[\") and part.endswith(\"]\") and len(part) > 2", "if part.startswith(\"[\") and part.endswith(\"]\") and len(part) > 3"),
    ("C09", "ignore.py", "        if pattern.startswith(r\"\\!\"):\n            pattern = pattern[1:]\n\n        # Is", "        if include and pattern.startswith(r\"\\!\"):\n            pattern = pattern[2:]\n\n        # Is"),
    ("C09", "ignore.py", "return \"^\" + \"\".join(parts) + r\"\\Z\"", "return \"^\" + \"\".join(parts) + \"$\""),
    ("C09", "ignore.py", "        path = path.lstrip(os.sep)\n\n        if self", "        path = path.lstrip(\"./\")\n\n        if self"),
    # C16
    ("C16", "arguments.py", "for pos in (0, -1):", "for pos in (-1, 0):"),
    ("C16", "arguments.py", "                while tests and os.sep in tests[pos] and", "                if tests and os.sep in tests[pos] and"),
    ("C16", "arguments.py", "                if os.path.commonpath([abs_directory, abs_subdir]) == \\\n                        os.path.commonpath([abs_subdir]):", "                if abs_directory.startswith(abs_subdir):"),
    ("C16", "arguments.py", "                if os.path.commonpath([abs_directory, abs_subdir]) == \\\n                        os.path.commonpath([abs_subdir]):", "                if abs_directory.startswith(abs_subdir + os.sep):"),
    ("C16", "arguments.py", "                if subdir == directory:\n                    continue", "                if os.path.abspath(subdir) == os.path.abspath(directory):\n                    continue"),
    ("C16", "arguments.py", "directory = os.path.normpath(tests.pop(pos))", "directory = tests.pop(pos).rstrip(os.sep)"),
    # C18
    ("C18", "type.py", "        return os.sep.join(v.lstrip(\".\") for v in value.split(os.sep))", "        return os.sep.join(v.lstrip(\".\") or v for v in value.split(os.sep))"),
    ("C18", "type.py", "        return os.sep.join(v.lstrip(\".\") for v in value.split(os.sep))", "        return value.lstrip(\".\")"),
    ("C18", "field.py", "                value = field.type.sort_none\n", "                value = output[-1] if output else field.type.sort_none\n"),
    ("C18", "processing.py", "            self.entries.sort(key=self.args.sort.render, reverse=self.args.reverse)\n\n        if", "            self.entries.sort(key=self.args.sort.render)\n            if self.args.reverse:\n                self.entries.reverse()\n\n        if"),
    ("C18", "processing.py", "            self.entries.sort(key=self.args.sort.render, reverse=self.args.reverse)\n\n        if", "            self.entries.sort(key=lambda e: self.args.sort.render(e)[:2], reverse=self.args.reverse)\n\n        if"),
    ("C18", "type.py", "        return sorted(value) if isinstance(value, set) else value", "        return sorted(value)"),
    # C19
    ("C19", "field.py", "yield [int(p) if i % 2 else p for i, p in enumerate(parts)]", "yield [int(p) if p.isdigit() else p for i, p in enumerate(parts)]"),
    ("C19", "field.py", "            if not ext or ext[0].isdigit():", "            if not ext or ext.isdigit():"),
    ("C19", "field.py", "            extensions.insert(0, ext)", "            extensions.append(ext)"),
    ("C19", "field.py", "            return [self.prepare_sort_key(v) for v in value]", "            return value"),
    ("C19", "field.py", "            if field.modifier == \"v\":\n                value = self.prepare_sort_key(value)", "            if field.modifier == \"v\" and value:\n                value = self.prepare_sort_key(value)"),
    # C20
    ("C20", "argparse.py", "            start = 0\n\n        stop = match.group(\"stop\")\n        if stop:\n            stop = int(stop)\n        else:\n            stop = None\n\n    else:", "            start = 0\n\n        stop = match.group(\"stop\")\n        if stop and int(stop):\n            stop = int(stop)\n        else:\n            stop = None\n\n    else:"),
    ("C20", "processing.py", "            return self.entries[start:stop]", "            return self.entries[start:stop] if start >= 0 or -start <= len(self.entries) else []"),
    ("C20", "argparse.py", "    start = pagesize * page\n", "    start = max(pagesize, 1) * page\n"),
    ("C20", "argparse.py", "|(?P<pagesize>\\d+),(?P<page>\\d+))$", "|(?P<pagesize>\\d+),(?P<page>\\d+))"),
    # C21
    ("C21", "processing.py", "                except KeyError:\n                    continue\n\n                if field.type.count is Count.TOTAL:", "                except KeyError:\n                    break\n\n                if field.type.count is Count.TOTAL:"),
    ("C21", "processing.py", "                        count[name][key] = val", "                        count[name].setdefault(key, val)"),
    ("C21", "processing.py", "            return (0, int(item[0]), item[0])", "            return (0, int(item[0]))"),
    ("C21", "processing.py", "            return (1, 0, item[0])", "            return (1, item[0])"),
    ("C21", "processing.py", "        if item[0].isdecimal():", "        if item[0].isdigit():"),
    ("C21", "processing.py", "                    count[name] = {}\n", "                    count.setdefault(name, {})\n"),
    ("C21", "processing.py", "                    self.count[field] += value", "                    self.count[field] += int(value / 1.0)"),
    # C22
    ("C22", "console.py", "fill = max(0, abs(width) - string.length)", "fill = max(0, abs(width) - len(string.value))"),
    ("C22", "console.py", "        if width < 0:\n            return string.value", "        if width <= 0:\n            return string.value[:0] + string.value"),
    ("C22", "console.py", "                if self.args.all or field.modifier == \"n\":\n                    output.append(\"\")\n                else:\n                    return", "                if self.args.all or self.fields[-1].modifier == \"n\":\n                    output.append(\"\")\n                else:\n                    return"),
    ("C22", "console.py", "                    output.append(\"\")", "                    continue"),
    ("C22", "console.py", "                print(line.encode(self.encoding, \"backslashreplace\").decode(self.encoding),\n                        end=self.args.newline)", "                print(line.encode(self.encoding, \"backslashreplace\").decode(self.encoding))"),
    ("C22", "console.py", "        if entry.is_symlink() and with_link:", "        if entry.is_symlink() and with_link and entry.dir:"),
    ("C22", "console.py", "self.args.separator.replace(\"\\\\t\", \"\\t\")", "self.args.separator.strip(\"\\\\\").replace(\"\\\\t\", \"\\t\")"),
    ("C22", "console.py", "dirname = self.render_directory(entry.dir + os.sep)", "dirname = self.render_directory(entry.dir.rstrip(os.sep) + os.sep)"),
    ("C22", "console.py", "dirname.length + name.length)", "len(dirname.value) + name.length)"),
    # C23
    ("C23", "console.py", "        self.separator = \",\"", "        self.separator = \",\\n\""),
    ("C23", "console.py", "            return sorted(value)\n        raise", "            return \",\".join(sorted(value))\n        raise"),
    ("C23", "field.py", "                if field.modifier == \"h\":\n                    value = type_cls", "                if field.modifier is not None:\n                    value = type_cls"),
    ("C23", "field.py", "            except KeyError:\n                value = None\n", "            except KeyError:\n                value = field.type.sort_none\n"),
    ("C23", "field.py", "            record[str(field.attribute)] = value", "            record[field.attribute.name] = value"),
    # C24
    ("C24", "field.py", "r\"({{|}}|{[^}]*})\"", "r\"({{|}}|{[^}]+})\""),
    ("C24", "field.py", "itertools.chain(*self[1:])", "itertools.chain(*self)"),
    ("C24", "field.py", "                        if not batch:\n                            raise", "                        if not batch:\n                            raise\n                        break"),
    ("C24", "field.py", "                if part])", "                if part.strip()])"),
    ("C24", "field.py", "                if self.args.all or field.modifier == \"n\":\n                    return \"\"\n                else:\n                    raise\n            else:", "                if self.args.all:\n                    return \"\"\n                else:\n                    raise\n            else:"),
    # C25
    ("C25", "processing.py", "remainder = entries[split:] + remainder", "remainder = remainder + entries[split:]"),
    ("C25", "processing.py", "                        entries = remainder\n                        remainder = []\n                    elif", "                        entries = remainder\n                    elif"),
    ("C25", "processing.py", "                        self.context.set_exitcode(EX_SUBPROCESS)\n                        entries = remainder", "                        entries = remainder"),
    ("C25", "processing.py", "                    if process.returncode != 0:\n                        self.context.set_exitcode(EX_SUBPROCESS)", "                    if process.returncode > 0:\n                        self.context.set_exitcode(EX_SUBPROCESS)"),
    ("C25", "processing.py", "split = len(entries) // 2\n", "split = len(entries) // 2 + 1\n"),
    # C26
    ("C26", "processing.py", "        if self.entries:\n            self.context.set_has_result()", "        if self.entries_range():\n            self.context.set_has_result()"),
    ("C26", "processing.py", "    def process(self, entries):\n        if entries:\n            self.context.set_has_result()\n\n        for entry in entries:\n            self.console.process(entry)", "    def process(self, entries):\n        for entry in entries:\n            self.console.process(entry)\n            self.context.set_has_result()"),
    ("C26", "main.py", "        if self.context.exitcode == EX_SUBPROCESS:", "        if self.context.exitcode == EX_SUBPROCESS and not self.args.fail:"),
    # C29
    ("C29", "argparse.py", "                self.parse_option(option, argv, attached=True)\n                break", "                self.parse_option(option, argv)\n                break"),
    ("C29", "argparse.py", "        argv.insert(0, value)\n        self.parse_option(option, argv, attached=True)", "        argv.insert(0, value)\n        self.parse_option(option, argv)"),
    ("C29", "argparse.py", "            if stop < start:" if False else "        container = self[key]\n        if container is None:", "        container = self[key]\n        if not container:"),
    ("C29", "argparse.py", "long_option, value = argv.pop(0).split(\"=\", 1)", "long_option, value = argv.pop(0).rsplit(\"=\", 1)"),
    ("C29", "argparse.py", "        except ValueError as exc:\n            raise ArgumentError", "        except (ValueError, ArgumentError) as exc:\n            raise ArgumentError"),
    ("C29", "arguments.py", "    argv += sys.argv[1:]\n    return argv", "    argv = sys.argv[1:] + argv\n    return argv"),
    ("C29", "argparse.py", "                elif arg[:2] == \"--\" and \"=\" in arg:" if False else "                    elif arg[:2] == \"--\" and \"=\" in arg:", "                    elif arg[:2] == \"--\" and \"=\" in arg[2:-1]:"),
    # C30, C31
    ("C30", "builtin/grep.py", "                except UnicodeDecodeError:", "                except UnicodeError:"),
    ("C31", "builtin/grep.py", "lines = [line.rstrip(\"\\n\") for line in fobj]", "lines = fobj.read().splitlines()"),
    ("C31", "builtin/grep.py", "lines = [line.rstrip(\"\\n\") for line in fobj]", "lines = fobj.read().split(\"\\n\")"),
    ("C31", "builtin/grep.py", "lines = [line.rstrip(\"\\n\") for line in fobj]", "lines = [line.rstrip() for line in fobj]"),
    # C36
    ("C36", "builtin/media.py", "and track_type not in tracks:", ":"),
    ("C36", "builtin/media.py", "        elif image_track is not None:", "        if image_track is not None:"),
    ("C36", "builtin/media.py", "            if duration is not None:", "            if duration:"),
    ("C36", "builtin/mime.py", "mime_parts = mime.split(\"/\", 1)", "mime_parts = mime.split(\"/\")"),
    ("C36", "builtin/mime.py", "mime_parts = mime.split(\"/\", 1)", "mime_parts = mime.rsplit(\"/\", 1)"),
    # C33
    ("C33", "parser.py", "        entry = Entry.as_reference(self.args, value)", "        entry = Entry.as_reference(self.args, value.strip())"),
    ("C33", "parser.py", "            self.get_common_super_type(type_cls, ref_type_cls)\n", "            self.get_common_super_type(ref_type_cls, ref_type_cls)\n"),
    ("C33", "parser.py", "        for cls in a_type.mro():\n            if cls is Type:\n                break\n            elif cls in b_type.mro():\n                return cls", "        for cls in a_type.mro():\n            if cls in b_type.mro():\n                return cls"),
    # C34
    ("C34", "find.py", "args.exclude = exclude.copy()", "args.exclude = exclude"),
    ("C34", "find.py", "args.sort = sort.copy()", "args.sort = sort"),
    ("C34", "processing.py", "        self.entries.sort(key=self.args.sort.render, reverse=self.args.reverse)\n\n    def __iter__", "        self.entries.sort(key=self.args.sort.render)\n        self.entries = self.entries[::-1] if self.args.reverse else self.entries\n\n    def __iter__"),
    ("C34", "find.py", "            tests = query\n", "            tests = [t for t in query if t]\n"),
    ("C34", "field.py", "field.replace(\".\", \"_\"): field", "field.rpartition(\".\")[2]: field"),
    # C35
    ("C35", "convert.py", "        number = round(number, 1)\n", ""),
    ("C35", "convert.py", "    if number < 10:\n        return f\"{number:.1f}{unit}\"", "    if number < 10:\n        return f\"{number:.2g}{unit}\""),
    ("C35", "convert.py", "    if hours:\n        return", "    if hours >= 1 and minutes:\n        return"),
    ("C35", "convert.py", "{hours}h{minutes:02}m{seconds:02}s", "{hours}h{minutes:2}m{seconds:02}s"),
    ("C35", "type.py", "            return format_time(value)", "            return format_time(value) if value else \"\""),
    ("C35", "type.py", "        if modifier == \"h\":\n            return stat.filemode(value)", "        if modifier == \"h\":\n            return stat.filemode(value)[:10].replace(\"T\", \"t\")"),
]
MUTANTS += [
    # C30-C32 the plugins
    ("C31", "../plugins/introspect.py", "for _ in range(node.level - 1):", "for _ in range(min(node.level, 2) - 1):"),
    ("C31", "../plugins/introspect.py", "                if node.module is not None:\n", "                if node.module:\n"),
    ("C31", "../plugins/introspect.py", "for node in ast.walk(ast.parse(data)):", "for node in ast.parse(data).body:"),
    ("C31", "../plugins/introspect.py", "return line[2:].decode(\"ascii\").rstrip()", "return line[2:].decode(\"ascii\").strip()"),
    ("C31", "../plugins/introspect.py", "if entry.ext.lower() == \"py\":", "if entry.ext == \"py\":"),
    ("C31", "../plugins/introspect.py", "shebang is not None and \"python\" in shebang", "shebang is not None and shebang.endswith(\"python\")"),
    ("C31", "../plugins/hash.py", "                while buf := fobj.read(8192):\n                    h.update(buf)", "                h.update(fobj.read(8192))"),
    ("C31", "../plugins/tar.py", "set(name for name in tar.getnames())", "set(tar.getnames()) - {\".\"}"),
    ("C31", "../plugins/introspect.py", "fobj.read(4) == b\"\\x7fELF\"", "fobj.read(4).endswith(b\"ELF\")"),
    ("C30", "../plugins/introspect.py", "        except (OSError, UnicodeDecodeError):\n            pass", "        except UnicodeDecodeError:\n            pass"),
    ("C30", "../plugins/tar.py", "(OSError, EOFError, tarfile.TarError, zlib.error, lzma.LZMAError)", "(OSError, tarfile.TarError, zlib.error, lzma.LZMAError)"),
    ("C30", "../plugins/hash.py", "        return entry.is_file()", "        return not entry.is_dir()"),
    ("C30", "../plugins/introspect.py", "(OSError, SyntaxError, ValueError, MemoryError, RecursionError)", "(OSError, SyntaxError, MemoryError, RecursionError)"),
    ("C32", "../plugins/git.py", "if line and not line.startswith(\"??\"):", "if line and not line.startswith(\"?\") and not line.startswith(\"D\"):"),
    ("C32", "../plugins/git.py", "                    abspath = entry.abspath + os.sep\n", "                    abspath = entry.abspath\n"),
    ("C32", "../plugins/git.py", "\"--porcelain\", \"-z\", \"--no-renames\"]", "\"--porcelain\", \"-z\"]"),
    ("C32", "../plugins/git.py", "self._cache[dirname] = self.find_repo(os.path.dirname(dirname))", "return self.find_repo(os.path.dirname(dirname))"),
    ("C32", "../plugins/git.py", "            if os.path.isdir(path):", "            if os.path.exists(path):"),
    ("C32", "../plugins/git.py", "        dirname = entry.abspath if entry.is_dir() else \\\n                os.path.dirname(entry.abspath)", "        dirname = os.path.dirname(entry.abspath)"),
    ("C32", "../plugins/git.py", "\"repo\": repo_dir == entry.abspath}", "\"repo\": entry.abspath.endswith(repo_dir)}"),
]
