"""Edits that keep the behaviour (tools/refactor.py): every check has to stay quiet with all of them applied."""
EDITS = [
("libff/type.py", '''        return test.operator == "=" and value == test.value or \\
                test.operator == ":" and test.value in value or \\
                test.operator == "~" and test.value.search(value) is not None

    @classmethod
    def sort_key(cls, value):
        return value.lower()


class Path''', '''        match test.operator:
            case "=":
                return value == test.value
            case ":":
                return value.find(test.value) >= 0
            case "~":
                return bool(test.value.search(value))
        return False

    @classmethod
    def sort_key(cls, value):
        return value.lower()


class Path'''),
("libff/type.py", '''            if test.value.match(value, value, False):
                return test.value.include
            else:
                return not test.value.include
''', '''            return test.value.match(value, value, False) == test.value.include
'''),
("libff/type.py", '''        value = value.lower()
        return os.sep.join(v.lstrip(".") for v in value.split(os.sep))
''', '''        parts = []
        for part in value.lower().split(os.sep):
            while part.startswith("."):
                part = part[1:]
            parts.append(part)
        return os.sep.join(parts)
'''),
("libff/type.py", '''        test_value = test.value.lower()
        if test_value == "d":
            test_value = "directory"
        elif test_value == "f":
            test_value = "file"
        elif test_value == "l":
            test_value = "symlink"
        elif test_value == "s":
            test_value = "socket"
        elif test_value in ("p", "pipe"): # compatible to fd.
            test_value = "fifo"
        return test.operator == "=" and value == test_value
''', '''        aliases = {"d": "directory", "f": "file", "l": "symlink", "s": "socket", "p": "fifo",
                   "pipe": "fifo"}
        wanted = test.value.lower()
        return test.operator == "=" and value == aliases.get(wanted, wanted)
'''),
("libff/type.py", '''        return any(String.test(entry, test, v) for v in value)
''', '''        for element in value:
            if String.test(entry, test, element):
                return True
        return False
'''),
("libff/type.py", '''        return test.operator == "=" and value == test.value or \\
                test.operator == "+=" and value >= test.value or \\
                test.operator == "-=" and value <= test.value or \\
                test.operator == "+" and value > test.value or \\
                test.operator == "-" and value < test.value
''', '''        compare = {"=": operator.eq, "+=": operator.ge, "-=": operator.le,
                   "+": operator.gt, "-": operator.lt}
        return compare[test.operator](value, test.value)
'''),
("libff/type.py", '''import stat
from enum''', '''import stat
import operator
from enum'''),
("libff/type.py", '''                affected_str, operator, value_str = match.groups()[:3]
''', '''                affected_str, oper, value_str = match.groups()[:3]
'''),
("libff/type.py", '''                for char in affected_str:
                    if char == "u":
                        affected |= stat.S_ISUID | stat.S_IRWXU
                    elif char == "g":
                        affected |= stat.S_ISGID | stat.S_IRWXG
                    elif char == "o":
                        affected |= stat.S_ISVTX | stat.S_IRWXO
                    elif char == "a":
                        affected |= cls.MODE_ALL

                if value_str == "u":
''', '''                who = {"u": 0o4700, "g": 0o2070, "o": 0o1007, "a": 0o7777}
                for char in affected_str:
                    affected |= who[char]

                if value_str == "u":
'''),
("libff/type.py", '''                operator, val = match.groups()[3:]
                if not operator:
                    operator = "="
                affected''', '''                oper = match.group(4) or "="
                val = match.group(5)
                affected'''),
("libff/type.py", '''            if operator == "=":
                result &= ~affected
            if operator in "+=":
                result |= affected & val
            elif operator == "-":
                result &= ~(affected & val)
''', '''            if oper == "-":
                result &= ~(affected & val)
            elif oper == "+":
                result |= affected & val
            else:
                result = (result & ~affected) | (affected & val)
'''),
("libff/type.py", '''        test_value = test.value & cls.MODE_ALL
        value = value & cls.MODE_ALL
        return test.operator == "=" and value == test_value or \\
               test.operator == ":" and value & test_value == test_value or \\
               test.operator == "~" and value & test_value != 0
''', '''        wanted = stat.S_IMODE(test.value)
        have = stat.S_IMODE(value)
        if test.operator == "=":
            return have == wanted
        common = have & wanted
        if test.operator == ":":
            return common == wanted
        return test.operator == "~" and bool(common)
'''),
("libff/type.py", '''        if value.lower() not in cls.true + cls.false:
            raise ValueError(f"unable to parse {value!r}")
        return value.lower() in cls.true
''', '''        word = value.lower()
        if word in cls.true:
            return True
        if word in cls.false:
            return False
        raise ValueError(f"unable to parse {value!r}")
'''),
("libff/type.py", '''        try:
            value = int(value)
        except ValueError as exc:
            raise ValueError(f"unable to parse {value!r}") from exc
        if value < 0:
            raise ValueError("value must not be less than 0")
        return value
''', '''        try:
            number = int(value)
        except ValueError as exc:
            raise ValueError(f"unable to parse {value!r}") from exc
        if number >= 0:
            return number
        raise ValueError("value must not be less than 0")
'''),
# convert
("libff/convert.py", '''        if unit == "s":
            duration += count
        elif unit == "m":
            duration += count * 60
        elif unit == "h":
            duration += count * 3600
        elif unit == "d":
            duration += count * 86400
        elif unit == "w":
            duration += count * 604800 # 7 days
        elif unit == "M":
            duration += count * 2592000 # 30 days
        elif unit == "y":
            duration += count * 31536000 # 365 days
''', '''        duration += count * DURATION_UNITS[unit]
'''),
("libff/convert.py", '''regex_duration = re.compile''', '''DURATION_UNITS = dict(s=1, m=60, h=3600, d=86400, w=7 * 86400, M=30 * 86400, y=365 * 86400)

regex_duration = re.compile'''),
("libff/convert.py", '''    hours = seconds // 3600
    minutes = (seconds % 3600) // 60
    seconds %= 60

    if hours:
''', '''    minutes, seconds = divmod(seconds, 60)
    hours, minutes = divmod(minutes, 60)

    if hours != 0:
'''),
("libff/convert.py", '''    for unit in UNITS:
        if number < base:
            break
        number /= base
        number = round(number, 1)
''', '''    index = 0
    while number >= base and index < len(UNITS):
        number = round(number / base, 1)
        index += 1
    unit = UNITS[min(index, len(UNITS) - 1)]
'''),
("libff/convert.py", '''        integer, _, fraction = number.partition(".")
        return int(integer + fraction) * base ** exp // 10 ** len(fraction)
''', '''        integer, _, fraction = number.partition(".")
        scale = 10 ** len(fraction)
        return (int(integer) * scale + int(fraction or "0")) * base ** exp // scale
'''),
("libff/convert.py", '''                if typ == "time":
                    now = datetime.datetime.now()
                    today = datetime.date.today()
                    time_obj = time_obj.replace(year=today.year, month=today.month, day=today.day)
                    if time_obj > now:
                        time_obj -= datetime.timedelta(days=1)
''', '''                if typ == "time":
                    now = datetime.datetime.now()
                    time_obj = datetime.datetime.combine(now.date(), time_obj.time())
                    if now < time_obj:
                        time_obj = time_obj - datetime.timedelta(days=1)
'''),
("libff/convert.py", '''    return time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(seconds))
''', '''    local = time.localtime(seconds)
    return time.strftime("%Y-%m-%d", local) + " " + time.strftime("%H:%M:%S", local)
'''),
# parser
("libff/parser.py", '''            elif utoken == "NOT":
                if not self.tokens:
                    raise ParserError("premature eof")

                utoken = self.tokens[0].upper()

                if utoken in self.OPENING_BRACKETS:
                    self.tokens.pop(0)
                    self.parse_bracket_sequence(sequences, NOT(AND()))

                elif utoken in ("AND", "OR", "NOT") + self.CLOSING_BRACKETS:
                    raise ParserError(f"unexpected token {utoken!r}")

                else:
                    sequences[-1].append(NOT(AND(self.parse_test(self.tokens.pop(0)))))

                continue
''', '''            elif utoken == "NOT":
                self.parse_not(sequences)
                continue
'''),
("libff/parser.py", '''    def parse_test(self, test):
''', '''    def parse_not(self, sequences):
        """Parse the operand of NOT."""
        if not self.tokens:
            raise ParserError("premature eof")

        operand = self.tokens.pop(0)
        if operand in self.OPENING_BRACKETS:
            self.parse_bracket_sequence(sequences, NOT(AND()))
            return

        if operand in self.CLOSING_BRACKETS or operand.upper() in {"AND", "OR", "NOT"}:
            raise ParserError(f"unexpected token {operand!r}")

        inverted = NOT()
        inverted.append(AND(self.parse_test(operand)))
        sequences[-1].append(inverted)

    def parse_test(self, test):
'''),
("libff/parser.py", '''        match = self.expression_regex.match(test)
        if match is not None:
            attribute, operator, reference, value = match.groups()
''', '''        if (match := self.expression_regex.match(test)) is not None:
            attribute = match[1]
            operator = match[2]
            reference = match[3]
            value = match[4]
'''),
("libff/parser.py", '''            operator = operator.replace(">", "+").replace("<", "-")
''', '''            operator = operator.translate({ord(">"): "+", ord("<"): "-"})
'''),
("libff/parser.py", '''        if isinstance(test, Test):
            return self.registry.get_plugin_speed(test.attribute)
        else:
            return sum(self.get_speed_score(t) for t in test)
''', '''        if not isinstance(test, Test):
            score = 0
            for sub in test:
                score += self.get_speed_score(sub)
            return score
        return self.registry.get_plugin_speed(test.attribute)
'''),
("libff/parser.py", '''        for cls in a_type.mro():
            if cls is Type:
                break
            elif cls in b_type.mro():
                return cls
        raise ValueError("no common Type subclass found")
''', '''        common = [cls for cls in a_type.__mro__
                  if issubclass(cls, Type) and cls is not Type and issubclass(b_type, cls)]
        if common:
            return common[0]
        raise ValueError("no common Type subclass found")
'''),
("libff/parser.py", '''            if self.args.case == "smart":
                # If the value is in lower case compare ignoring the case, if it contains uppercase
                # letters compare using sensitive case.
                ignore_case = value == value.lower()
            else:
                ignore_case = self.args.case == "ignore"
''', '''            ignore_case = {"smart": value.lower() == value, "ignore": True,
                    "sensitive": False}[self.args.case]
'''),
# filter
("libff/filter.py", '''        for test in tests:
            if test.name == "AND":
                yield all(self._test(test, entry))

            elif test.name == "OR":
                yield any(self._test(test, entry))

            elif test.name == "NOT":
                yield not any(self._test(test, entry))

            else:
                # Fetch the attribute's value from the entry to test.
                try:
                    value, type_cls = self.registry.get_attribute_and_type(entry, test.attribute)
                except KeyError:
                    # The plugin was unable to provide a value for this attribute, so we remove
                    # this entry from the result.
                    yield False
                else:
                    yield type_cls.test(entry, test, value)
''', '''        for test in tests:
            yield self._evaluate(test, entry)

    def _evaluate(self, test, entry):
        """Evaluate a test or a sequence."""
        if test.name == "AND":
            return all(self._test(test, entry))
        if test.name == "OR":
            return any(self._test(test, entry))
        if test.name == "NOT":
            return not any(self._test(test, entry))

        try:
            value = self.registry.get_attribute(entry, test.attribute)
        except KeyError:
            return False
        return self.registry.get_attribute_type(test.attribute).test(entry, test, value)
'''),
("libff/filter.py", '''        return not list(itertools.chain.from_iterable(self.parser))
''', '''        return not any(len(seq) for seq in self.parser)
'''),
("libff/filter.py", '''        for test in itertools.chain.from_iterable(self.parser):
            try:
                value, type_cls = self.registry.get_attribute_and_type(entry, test.attribute)
            except KeyError:
                # Ignore entries that don't provide this attribute.
                continue

            # If an entry matches the test, we return immediately without further going through the
            # TestSequence.
            if type_cls.test(entry, test, value):
                return True

        return False
''', '''        for sequence in self.parser:
            for test in sequence:
                try:
                    value, type_cls = self.registry.get_attribute_and_type(entry, test.attribute)
                    found = True
                except KeyError:
                    found = False

                if found and type_cls.test(entry, test, value):
                    return True

        return False
'''),
# field
("libff/field.py", '''        extensions = []
        while component:
            comp, ext = os.path.splitext(component)
            ext = ext.lstrip(os.extsep)
            if not ext or ext[0].isdigit():
                break
            component = comp
            extensions.insert(0, ext)
''', '''        extensions = []
        while True:
            comp, ext = os.path.splitext(component)
            ext = ext[1:]
            if ext == "" or ext[:1].isdigit():
                break
            extensions.append(ext)
            component = comp
        extensions.reverse()
'''),
("libff/field.py", '''        yield [int(p) if i % 2 else p for i, p in enumerate(parts)]
''', '''        tokens = []
        for i, part in enumerate(parts):
            tokens.append(part if i % 2 == 0 else int(part))
        yield tokens
'''),
("libff/field.py", '''        output = []
        for field in self:
            try:
                value = self.registry.get_attribute(entry, field.attribute)
            except KeyError:
                value = field.type.sort_none
            else:
                value = field.type.sort_key(value)
            if field.modifier == "v":
                value = self.prepare_sort_key(value)
            output.append(value)
        return tuple(output)
''', '''        return tuple(self.render_field(entry, field) for field in self)

    def render_field(self, entry, field):
        """Create the sort key for one field."""
        try:
            value = field.type.sort_key(self.registry.get_attribute(entry, field.attribute))
        except KeyError:
            value = field.type.sort_none
        return self.prepare_sort_key(value) if field.modifier == "v" else value
'''),
("libff/field.py", '''        if part == "{{":
            field = "{"
        elif part == "}}":
            field = "}"
        elif part == "{}":
            field = self.make_field("file.path")
        elif part == "{/}":
            field = self.make_field("file.name")
        elif part == "{//}":
            field = self.make_field("file.dir")
        elif part == "{.}":
            field = self.make_field("file.pathx")
        elif part == "{/.}":
            field = self.make_field("file.namex")
        elif part == "{..}":
            field = self.make_field("file.ext")
        elif part''', '''        short = {"{}": "path", "{/}": "name", "{//}": "dir", "{.}": "pathx", "{/.}": "namex",
                 "{..}": "ext"}
        if part in ("{{", "}}"):
            field = part[0]
        elif part in short:
            field = self.make_field("file." + short[part])
        elif part'''),
("libff/field.py", '''            if any(isinstance(a, Field) for a in subfields):
                for entry in entries:
                    # Build one argument for each Entry at a time.
                    try:
                        argument = []
                        for field in subfields:
                            argument.append(self.render_field(entry, field))
                        output.append("".join(argument))

                    except KeyError:
                        # One of the attributes produced no value. If in batch mode, we ignore this
                        # and simply add no new argument. If not in batch mode we want this problem
                        # to be propagated to the caller, so that there is no --exec call.
                        if not batch:
                            raise

            else:
                output.append("".join(subfields))
''', '''            if not any(isinstance(a, Field) for a in subfields):
                output.append("".join(subfields))
                continue

            for entry in entries:
                try:
                    argument = "".join([self.render_field(entry, field) for field in subfields])
                except KeyError:
                    if not batch:
                        raise
                    continue
                output += [argument]
'''),
("libff/field.py", '''            try:
                value, type_cls = \\
                        self.context.registry.get_attribute_and_type(entry, field.attribute)
            except KeyError:
                value = None
            else:
                if field.modifier == "h":
                    value = type_cls.output(self.args, field.modifier, value)

            record[str(field.attribute)] = value
''', '''            key = str(field.attribute)
            try:
                value = self.registry.get_attribute(entry, field.attribute)
            except KeyError:
                record[key] = None
                continue
            if field.modifier == "h":
                value = field.type.output(self.args, "h", value)
            record.update({key: value})
'''),
# console
("libff/console.py", '''        fill = max(0, abs(width) - string.length)
        if width < 0:
            return string.value + " " * fill
        else:
            return " " * fill + string.value
''', '''        padding = " " * (abs(width) - string.length)
        return string.value + padding if width < 0 else padding + string.value
'''),
("libff/console.py", '''        output = []
        for field in self.fields:
            try:
                output.append(self.format_field(entry, field))
            except KeyError:
                if self.args.all or field.modifier == "n":
                    output.append("")
                else:
                    return

        self.write_line(self.field_separator.join(output))
''', '''        columns = []
        for field in self.fields:
            try:
                column = self.format_field(entry, field)
            except KeyError:
                if not self.args.all and field.modifier != "n":
                    return
                column = ""
            columns.append(column)

        line = self.field_separator.join(columns)
        self.write_line(line)
'''),
("libff/console.py", '''            try:
                print(line, end=self.args.newline)
            except UnicodeEncodeError:
                print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
                        end=self.args.newline)
''', '''            try:
                sys.stdout.write(line + self.args.newline)
            except UnicodeEncodeError:
                raw = line.encode(self.encoding, "backslashreplace")
                sys.stdout.write(raw.decode(self.encoding) + self.args.newline)
'''),
("libff/console.py", '''        with self.context.output_lock:
            json.dump(record, sys.stdout, default=self.encode)
            print()
            sys.stdout.flush()
''', '''        text = json.dumps(record, default=self.encode)
        with self.context.output_lock:
            sys.stdout.write(text + "\\n")
            sys.stdout.flush()
'''),
("libff/console.py", '''        print(self.separator, end="")
        json.dump(record, sys.stdout, default=self.encode)
        self.separator = ","
''', '''        sys.stdout.write(self.separator + json.dumps(record, default=self.encode))
        self.separator = ","
'''),
("libff/console.py", '''            try:
                key, value = part.split("=", 1)
            except ValueError:
                continue
            else:
                if len(key) == 2 and key.isalpha():
                    rules[key] = value
                else:
                    ext = os.path.splitext(key)[1][1:]
                    if ext:
                        self.extensions[ext] = esc(value)
''', '''            key, sep, value = part.partition("=")
            if not sep:
                continue
            if len(key) == 2 and key.isalpha():
                rules[key] = value
                continue
            _, ext = os.path.splitext(key)
            if len(ext) > 1:
                self.extensions[ext[1:]] = esc(value)
'''),
# argparse
("libff/argparse.py", '''        arg = argv.pop(0)[1:]
        while arg:
            option = self.get_option(f"-{arg[0]}")
            arg = arg[1:]

            if arg and option.takes_argument():
                # The rest of the bundle is the argument of this option.
                argv.insert(0, arg)
                self.parse_option(option, argv, attached=True)
                break

            self.parse_option(option, argv)
''', '''        bundle = argv.pop(0)
        for pos in range(1, len(bundle)):
            option = self.get_option("-" + bundle[pos])
            rest = bundle[pos + 1:]

            if rest and option.takes_argument():
                # The rest of the bundle is the argument of this option.
                argv[:0] = [rest]
                return self.parse_option(option, argv, attached=True)

            self.parse_option(option, argv)
'''),
("libff/argparse.py", '''        long_option, value = argv.pop(0).split("=", 1)
''', '''        long_option, _, value = argv.pop(0).partition("=")
'''),
("libff/argparse.py", '''    if match.group("start") is not None:
        start = match.group("start")
        if start:
            start = int(start)
        else:
            start = 0

        stop = match.group("stop")
        if stop:
            stop = int(stop)
        else:
            stop = None

    else:
        pagesize = int(match.group("pagesize"))
        page = int(match.group("page"))
        start = pagesize * page
        stop = pagesize * (page + 1)

    return start, stop
''', '''    groups = match.groupdict()
    if groups["start"] is None:
        pagesize = int(groups["pagesize"])
        start = pagesize * int(groups["page"])
        return start, start + pagesize

    return int(groups["start"] or 0), int(groups["stop"]) if groups["stop"] else None
'''),
("libff/argparse.py", '''        if match.group("single") is not None:
            number = int(match.group("single"))
            segments.append((number, number))

        else:
            start = match.group("start")
            if start:
                start = int(start)
            else:
                start = 0

            stop = match.group("stop")
            if stop:
                stop = int(stop)
                if stop < start:
                    stop, start = start, stop
            else:
                stop = None

            segments.append((start, stop))
''', '''        single, start, stop = match.group("single", "start", "stop")
        if single is not None:
            segments.append((int(single),) * 2)
            continue

        low = int(start) if start else 0
        high = int(stop) if stop else None
        if high is not None and high < low:
            low, high = high, low
        segments.append((low, high))
'''),
("libff/argparse.py", '''        if option.action == "store_true":
            self.namespace.set(option.dest, True)

        elif option.action == "store_const":
            self.namespace.set(option.dest, option.const)

        elif option.action == "append":
            self.namespace.append(option.dest, self.get_argument(option, argv))

        elif option.action == "store":
            self.namespace.set(option.dest, self.get_argument(option, argv))
''', '''        if option.action in ("store_true", "store_const"):
            self.namespace.set(option.dest, True if option.action == "store_true" else option.const)

        elif option.action in ("append", "store"):
            store = self.namespace.append if option.action == "append" else self.namespace.set
            store(option.dest, self.get_argument(option, argv))
'''),
("libff/argparse.py", '''        while argv and not argv[0].startswith("-"):
            self.namespace.append(option.dest, argv.pop(0))
''', '''        for _ in range(len(argv)):
            if argv[0][:1] == "-":
                break
            self.namespace.append(option.dest, argv.pop(0))
'''),
# arguments
("libff/arguments.py", '''            tests = list(self.args.tests)
            for pos in (0, -1):
                while tests and os.sep in tests[pos] and os.path.isdir(tests[pos]):
                    directory = os.path.normpath(tests.pop(pos))
                    self.args.directories.append(directory)
            self.args.tests = tests
''', '''            def is_directory(arg):
                return os.sep in arg and os.path.isdir(arg)

            tests = list(self.args.tests)
            first, last = 0, len(tests)
            while first < last and is_directory(tests[first]):
                self.args.directories.append(os.path.normpath(tests[first]))
                first += 1
            while last > first and is_directory(tests[last - 1]):
                last -= 1
                self.args.directories.append(os.path.normpath(tests[last]))
            self.args.tests = tests[first:last]
'''),
("libff/arguments.py", '''        if not [stop for start, stop in self.args.depth if stop is None]:
            stop = max(stop for start, stop in self.args.depth)
            self.args.exclude.append(f"depth+{stop}")
''', '''        stops = [stop for _, stop in self.args.depth]
        if None not in stops:
            self.args.exclude.append(f"depth>{max(stops)}")
'''),
("libff/arguments.py", '''        for i, (start, stop) in enumerate(self.args.depth):
            if start == stop:
                tests.append(f"depth={start}")
            else:
                tests.append(f"depth+={start}")
                if stop is not None:
                    tests.append(f"depth-={stop}")

            if i < len(self.args.depth) - 1:
                tests.append("OR")
''', '''        for i, (start, stop) in enumerate(self.args.depth):
            if i > 0:
                tests.append("OR")

            tests.append(f"depth>={start}")
            if stop is not None:
                tests.append(f"depth<={stop}")
'''),
("libff/arguments.py", '''        argv = shlex.split(ff_options)
    else:
        argv = []
    argv += sys.argv[1:]
    return argv
''', '''        return shlex.split(ff_options) + sys.argv[1:]
    return sys.argv[1:]
'''),
# find, main
("libff/find.py", '''        args = FindNamespace()
        args.tests = tests
        args.directories = directories.copy()
        args.exclude = exclude.copy()
        args.output = output.copy()
        args.sort = sort.copy()
        args.reverse = reverse
''', '''        args = FindNamespace(tests=tests, directories=list(directories), exclude=list(exclude),
                output=list(output), sort=list(sort), reverse=reverse)
'''),
("libff/find.py", '''        if self.context.args.sort:
            self.context.processing = CollectiveGenerator(self.context)
        else:
            self.context.processing = ImmediateGenerator(self.context)
''', '''        cls = CollectiveGenerator if self.context.args.sort else ImmediateGenerator
        self.context.processing = cls(self.context)
'''),
("libff/main.py", '''            pos = args.output.index("file")
            args.output.pop(pos)
            args.output = args.output[:pos] + [a + ":n" for a in registry.get_file_attributes()] + \\
                    args.output[pos:]
''', '''            pos = args.output.index("file")
            file_attributes = [f"{a}:n" for a in registry.get_file_attributes()]
            args.output = [*args.output[:pos], *file_attributes, *args.output[pos + 1:]]
'''),
("libff/main.py", '''            if self.context.args.no_parent_ignore:
                # Don't use ignore files from parent directories.
                ignores = []
            else:
                # Find ignore files in parent directories.
                if self.context.args.ignore:
                    ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
                            path)
                else:
                    ignores = []
''', '''            ignores = []
            if self.context.args.ignore and not self.context.args.no_parent_ignore:
                ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files, path)
'''),
("libff/main.py", '''        if args.sort or args.count or args.limit or args.exec_batch or args.json == "json":
            if args.exec or args.exec_batch:
                self.context.processing = CollectiveExecProcessing(self.context)
            else:
                self.context.processing = CollectiveConsoleProcessing(self.context)
        elif args.exec:
            self.context.processing = ImmediateExecProcessing(self.context)
        else:
            self.context.processing = ImmediateConsoleProcessing(self.context)
''', '''        collective = any((args.sort, args.count, args.limit, args.exec_batch,
                          args.json == "json"))
        execute = args.exec or args.exec_batch
        if execute:
            cls = CollectiveExecProcessing if collective else ImmediateExecProcessing
        else:
            cls = CollectiveConsoleProcessing if collective else ImmediateConsoleProcessing
        self.context.processing = cls(self.context)
'''),
# registry
("libff/registry.py", '''        return set(attribute.plugin for attribute in self.attributes if attribute.name == name)
''', '''        plugins = set()
        for plugin, attr in self.attributes:
            if attr == name:
                plugins.add(plugin)
        return plugins
'''),
("libff/registry.py", '''        if attribute.plugin == "file":
            # Use a shortcut for attributes from the 'file' plugin. Fetch the value directly from
            # the Entry object instead of going through the plugin.
            return entry.get_attribute(attribute.name)

        data = self.get_data(entry, attribute.plugin)
        return data[attribute.name]
''', '''        if attribute.plugin != "file":
            return self.get_data(entry, attribute.plugin)[attribute.name]
        return entry.get_attribute(attribute.name)
'''),
# plugins
("libff/builtin/grep.py", '''                try:
                    lines = [line.rstrip("\\n") for line in fobj]
                except UnicodeDecodeError:
                    yield "text", False
                else:
                    yield "text", True
                    yield "linecount", len(lines)
                    yield "lines", lines
''', '''                try:
                    lines = [line[:-1] if line.endswith("\\n") else line for line in fobj.readlines()]
                except UnicodeDecodeError:
                    return {"text": False}
                return {"text": True, "linecount": len(lines), "lines": lines}
'''),
("libff/builtin/ignore.py", '''            ignores = []
            for path in paths:
                # Reuse GitIgnore objects that have already been instantiated.
                try:
                    ignore = self.ignore_cache[path]
                except KeyError:
                    try:
                        ignore = GitIgnore(*split(path))
                    except OSError as exc:
                        self.logger.warning(exc, tag=f"ignore-{path}")
                        continue

                    self.ignore_cache[path] = ignore

                ignores.append(ignore)

            self.ignores_cache[paths] = ignores
''', '''            found = [self.get_ignore(path) for path in paths]
            self.ignores_cache[paths] = [ignore for ignore in found if ignore is not None]
'''),
("libff/builtin/ignore.py", '''    def get_ignores(self, paths):
''', '''    def get_ignore(self, path):
        """Reuse GitIgnore objects that have already been instantiated."""
        if path not in self.ignore_cache:
            dirname, name = split(path)
            try:
                self.ignore_cache[path] = GitIgnore(dirname, name)
            except OSError as exc:
                self.logger.warning(exc, tag=f"ignore-{path}")
                return None
        return self.ignore_cache[path]

    def get_ignores(self, paths):
'''),
("libff/builtin/media.py", '''            if track is None:
                continue

            duration = track.duration
            if duration is not None:
                if isinstance(duration, str):
                    duration = float(duration)
                cached["duration"] = int(duration / 1000)
''', '''            if track is not None and track.duration is not None:
                cached["duration"] = int(float(track.duration) / 1000)
'''),
("libff/builtin/mime.py", '''        mime_parts = mime.split("/", 1)
        yield "mime", mime
        yield "type", mime_parts[0]
        yield "subtype", mime_parts[1]
        yield "encoding", encoding
        yield "name", name
''', '''        type_, subtype = mime.split("/", maxsplit=1)
        return {"mime": mime, "type": type_, "subtype": subtype, "encoding": encoding,
                "name": name}
'''),
("plugins/git.py", '''        for filename in os.fsdecode(proc.stdout).split("\\0"):
            if filename:
                self.add(os.path.join(dirname, filename))
''', '''        names = filter(None, os.fsdecode(proc.stdout).split("\\0"))
        self.update(os.path.join(dirname, name) for name in names)
'''),
("plugins/git.py", '''        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "-z", "--no-renames"],
                capture_output=True, check=False)
        for line in os.fsdecode(proc.stdout).split("\\0"):
''', '''        command = ["git", "-C", dirname, "status", "--porcelain", "-z", "--no-renames"]
        output = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                check=False).stdout
        for line in os.fsdecode(output).split("\\0"):
'''),
("plugins/git.py", '''        if dirname not in self._cache:
            path = os.path.join(dirname, ".git")
            if os.path.isdir(path):
                self._cache[dirname] = dirname, Filelist(dirname), Status(dirname)
            else:
                if dirname == os.sep:
                    self._cache[dirname] = None, None, None
                else:
                    self._cache[dirname] = self.find_repo(os.path.dirname(dirname))

        return self._cache[dirname]
''', '''        try:
            return self._cache[dirname]
        except KeyError:
            pass

        if os.path.isdir(os.path.join(dirname, ".git")):
            result = dirname, Filelist(dirname), Status(dirname)
        elif dirname == os.sep:
            result = None, None, None
        else:
            result = self.find_repo(os.path.split(dirname)[0])

        self._cache[dirname] = result
        return result
'''),
("plugins/hash.py", '''                while buf := fobj.read(8192):
                    h.update(buf)
''', '''                for buf in iter(lambda: fobj.read(65536), b""):
                    h.update(buf)
'''),
("plugins/introspect.py", '''                line = fobj.readline()
                if line.startswith(b"#!"):
                    return line[2:].decode("ascii").rstrip()
''', '''                if fobj.read(2) == b"#!":
                    return fobj.readline().decode("ascii").rstrip()
'''),
("plugins/introspect.py", '''                for section in elffile.iter_sections():
                    if not isinstance(section, DynamicSection):
                        continue

                    for tag in section.iter_tags():
                        if tag.entry.d_tag == "DT_NEEDED":
                            yield tag.needed
''', '''                for section in elffile.iter_sections():
                    if isinstance(section, DynamicSection):
                        yield from (tag.needed for tag in section.iter_tags()
                                if tag.entry.d_tag == "DT_NEEDED")
'''),
("plugins/tar.py", '''                return set(name for name in tar.getnames())
''', '''                return {member.name for member in tar.getmembers()}
'''),
("plugins/pacman.py", '''        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE) as proc:
            for line in proc.stdout:
                line = os.fsdecode(line).rstrip("\\n")
                pkgname, path = line.split(" ", 1)
                path = path.rstrip(os.sep)
''', '''        with subprocess.Popen(["pacman", "-Ql"], stdout=subprocess.PIPE) as proc:
            for line in proc.stdout:
                pkgname, _, path = os.fsdecode(line.rstrip(b"\\n")).partition(" ")
                path = path.rstrip(os.sep)
'''),
("plugins/xattr.py", '''                value = os.getxattr(entry.path, key)
                try:
                    value = os.fsdecode(value)
                except UnicodeDecodeError:
                    value = value.decode(sys.getfilesystemencoding(), "backslashreplace")
                xattrs.append(f"{key}={value}")
''', '''                value = os.fsdecode(os.getxattr(entry.path, key))
                xattrs.append(key + "=" + value)
'''),
]
