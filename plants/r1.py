"""Edits that keep the behaviour (tools/refactor.py): every check has to stay quiet with all of them applied."""
EDITS = [
("libff/walk.py", '''        timeout = 10
        for process in self.processes:
            process.join(timeout)
            if process.exitcode is None:
                # If join() hits the timeout once we don't wait for the other processes to
                # terminate.
                timeout = 0

        self.queue.close()
''', '''        remaining = list(self.processes)
        hit = False
        while remaining:
            proc = remaining.pop(0)
            proc.join(0 if hit else 10)
            hit = hit or proc.exitcode is None

        self.queue.close()
'''),
("libff/walk.py", '''        for process in self.processes:
            process.join(timeout)
            if process.exitcode is None:
                return False
        return True
''', '''        return all(self._joined(process, timeout) for process in self.processes)

    @staticmethod
    def _joined(process, timeout):
        """Join one process and say whether it is gone."""
        process.join(timeout)
        return process.exitcode is not None
'''),
("libff/walk.py", '''                if isinstance(objs, Entries):
                    if __debug__:
                        self.logger.debug_proc(self.index,
                                f"got Entries object with {len(objs.entries)} entries "\\
                                f"from {objs.parent.start.root}")

                    self.process_entries(*objs)

                elif isinstance(objs[0], Directory):
                    if __debug__:
                        self.logger.debug_proc(self.index, f"got {len(objs)} Directory entries")

                    for obj in objs:
                        self.process_directory(obj)

                else:
                    if __debug__:
                        self.logger.debug_proc(self.index, f"got {len(objs)} process arguments")

                    for obj in objs:
                        self.process_arguments(obj)
''', '''                self.dispatch(objs)
'''),
("libff/walk.py", '''    def scan_directory(self, parent):
        """Scan the directory `parent` and produce a list of entries and the names of .*ignore
           files that were found.
        """
        entries = []
        ignore_paths = parent.ignore_paths.copy()

        try:
            with os.scandir(join(parent.start.root, parent.relpath)) as direntries:
                for direntry in direntries:
                    try:
                        status = direntry.stat(follow_symlinks=self.args.follow_symlinks)
                        entry = Entry(parent.start, join(parent.relpath, direntry.name),
                                status, ignore_paths)

                    except FileNotFoundError:
                        # Do not warn about files that have vanished.
                        continue
                    except PermissionError:
                        # Do not warn about files that we are not allowed to access.
                        continue
                    except OSError as exc:
                        self.logger.warning(exc)
                        continue

                    entries.append(entry)
''', '''    def dispatch(self, objs):
        """Process what came from the queue."""
        if isinstance(objs, Entries):
            parent, entries = objs
            self.process_entries(parent, entries)
            return

        handler = self.process_directory if isinstance(objs[0], Directory) \\
            else self.process_arguments
        for obj in objs:
            handler(obj)

    def make_entry(self, parent, direntry, ignore_paths):
        """Create an Entry or return None if it is not accessible."""
        try:
            status = direntry.stat(follow_symlinks=self.args.follow_symlinks)
            relpath = join(parent.relpath, direntry.name)
            return Entry(parent.start, relpath, status, ignore_paths)
        except (FileNotFoundError, PermissionError):
            return None
        except OSError as exc:
            self.logger.warning(exc)
            return None

    def scan_directory(self, parent):
        """Scan the directory `parent` and produce a list of entries and the names of .*ignore
           files that were found.
        """
        ignore_paths = list(parent.ignore_paths)
        entries = []

        try:
            root = parent.start.root
            with os.scandir(join(root, parent.relpath)) as direntries:
                for direntry in direntries:
                    entry = self.make_entry(parent, direntry, ignore_paths)
                    if entry is None:
                        continue

                    entries.append(entry)
'''),
("libff/walk.py", '''        except FileNotFoundError:
            # Do not warn about directories that have vanished.
            pass
        except PermissionError:
            # Do not warn about directories that we are not allowed to enter.
            pass
        except OSError as exc:
            self.logger.warning(exc)

        return entries
''', '''        except OSError as exc:
            if not isinstance(exc, (FileNotFoundError, PermissionError)):
                self.logger.warning(exc)

        return entries
'''),
("libff/walk.py", '''            while entries:
                entry = entries.pop(0)
                is_dir = entry.is_dir()

                if self.excluder.test(entry):
                    continue

                elif self.matcher.test(entry):
                    process.append(entry)

                if is_dir:
                    search.append(Directory(parent.start, entry.relpath, entry.ignore_paths))
''', '''            while len(entries) > 0:
                entry, entries = entries[0], entries[1:]

                excluded = self.excluder.test(entry)
                if excluded:
                    continue

                if self.matcher.test(entry):
                    process.append(entry)

                if entry.is_dir():
                    search.append(Directory(start=parent.start, relpath=entry.relpath,
                                            ignore_paths=entry.ignore_paths))
'''),
("libff/walk.py", '''            chunk_size = min(100, max(10, int(len(search) / self.args.jobs) + 1))

            for i in range(0, len(search), chunk_size):
                self.queue.put(search[i:i + chunk_size])

        while process:
            # Reduce number of Entry object that are sent in one go. This resolves issues with
            # directories that contain a large number of entries.
            self.processing.process(process[:100])
            process = process[100:]
''', '''            chunk_size = max(10, len(search) // self.args.jobs + 1)
            if chunk_size > 100:
                chunk_size = 100

            while search:
                chunk, search = search[:chunk_size], search[chunk_size:]
                self.put(chunk)

        for pos in range(0, len(process), 100):
            self.processing.process(process[pos:pos + 100])
'''),
# entry.py
("libff/entry.py", '''        try:
            # pylint:disable=unspecified-encoding
            with open("/proc/mounts", errors="surrogateescape", newline="\\n") as lines:
                for line in lines:
                    devname, mpath, fstype = map(self.unescape, line.split(" ", 3)[:3])
                    self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))
        except OSError:
            pass
        else:
            self.entries.sort(reverse=True)
''', '''        try:
            # pylint:disable=unspecified-encoding
            with open("/proc/mounts", errors="surrogateescape", newline="\\n") as lines:
                self.entries = sorted(map(self.parse_line, lines), reverse=True)
        except OSError:
            return

    @classmethod
    def parse_line(cls, line):
        """Split one line."""
        fields = line.split(" ")
        devname = cls.unescape(fields[0])
        mpath = cls.unescape(fields[1])
        fstype = cls.unescape(fields[2])
        return mpath.rstrip(os.sep) + os.sep, devname, fstype
'''),
("libff/entry.py", '''        for mpath, devname, fstype in self.entries:
            if mpath == path + os.sep or path.startswith(mpath):
                return mpath, devname, fstype
        return os.sep, "root_device", "rootfs"
''', '''        with_slash = path + os.sep
        found = next((e for e in self.entries
            if path.startswith(e[0]) or e[0] == with_slash), None)
        if found is None:
            return os.sep, "root_device", "rootfs"
        return found
'''),
("libff/entry.py", '''        if stat.S_ISDIR(self.mode):
            self.type = "directory"
        elif stat.S_ISREG(self.mode):
            self.type = "file"
        elif stat.S_ISLNK(self.mode):
            self.type = "symlink"
        elif stat.S_ISSOCK(self.mode):
            self.type = "socket"
        elif stat.S_ISFIFO(self.mode):
            self.type = "fifo"
        elif stat.S_ISCHR(self.mode):
            self.type = "char"
        elif stat.S_ISBLK(self.mode):
            self.type = "block"
        elif stat.S_ISDOOR(self.mode):
''', '''        kinds = {stat.S_IFDIR: "directory", stat.S_IFREG: "file", stat.S_IFLNK: "symlink",
                 stat.S_IFSOCK: "socket", stat.S_IFIFO: "fifo", stat.S_IFCHR: "char",
                 stat.S_IFBLK: "block"}
        kind = stat.S_IFMT(self.mode)
        if kind in kinds:
            self.type = kinds[kind]
        elif stat.S_ISDOOR(self.mode):
'''),
("libff/entry.py", '''        try:
            return self._pwd_cache[self.status.st_uid]
        except KeyError:
            uid = self.status.st_uid
            try:
                self._pwd_cache[uid] = pwd.getpwuid(uid)[0]
            except KeyError:
                self._pwd_cache[uid] = ""
            return self._pwd_cache[uid]
''', '''        uid = self.status.st_uid
        if uid not in self._pwd_cache:
            try:
                name = pwd.getpwuid(uid).pw_name
            except KeyError:
                name = ""
            self._pwd_cache[uid] = name
        return self._pwd_cache[uid]
'''),
("libff/entry.py", '''        try:
            return self._grp_cache[self.status.st_gid]
        except KeyError:
            gid = self.status.st_gid
            try:
                self._grp_cache[gid] = grp.getgrgid(gid)[0]
            except KeyError:
                self._grp_cache[gid] = ""
            return self._grp_cache[gid]
''', '''        gid = self.status.st_gid
        name = self._grp_cache.get(gid)
        if name is None:
            try:
                name = grp.getgrgid(gid).gr_name
            except KeyError:
                name = ""
            self._grp_cache[gid] = name
        return name
'''),
("libff/entry.py", '''        return any(part.startswith(".") for part in self.path.split(os.sep))
''', '''        for part in self.path.split(os.sep):
            if part[:1] == ".":
                return True
        return False
'''),
("libff/entry.py", '''                with os.scandir(self.path) as entries:
                    for _ in entries:
                        return False
                    return True
''', '''                with os.scandir(self.path) as entries:
                    return next(entries, None) is None
'''),
("libff/entry.py", '''        if self.is_dir() or self.is_symlink():
            return False
        return ((self.perm & stat.S_IXUSR) | (self.perm & stat.S_IXGRP) |
                (self.perm & stat.S_IXOTH)) > 0
''', '''        if self.type in ("directory", "symlink"):
            return False
        return bool(self.mode & (stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH))
'''),
("libff/entry.py", '''        if stat.S_ISREG(self.status.st_mode):
            return self.status.st_size
        else:
            return 0
''', '''        return self.status.st_size if self.is_file() else 0
'''),
("libff/entry.py", '''        return splitext(self.path)[1][1:]
''', '''        _, ext = splitext(self.path)
        return ext[len("."):]
'''),
("libff/entry.py", '''        return self.relpath.count(os.sep)
''', '''        return len(self.relpath.split(os.sep)) - 1
'''),
("libff/entry.py", '''        return os.path.basename(self.pathx)
''', '''        return split(self.pathx)[1]
'''),
# cache
("libff/cache.py", '''        for row in self.conn.execute(
                f"select data from {plugin.sql_table_name} where path = ? and tag = ?",
                (path, tag)):
            self.hits += 1
            return pickle.loads(row[0])

        self.misses += 1
        return super().get(plugin, path, tag)
''', '''        statement = f"select data from {plugin.sql_table_name} where path = ? and tag = ?"
        row = self.conn.execute(statement, (path, tag)).fetchone()
        if row is None:
            self.misses += 1
            return NOTSET

        self.hits += 1
        (data,) = row
        return pickle.loads(data)
'''),
("libff/cache.py", '''        self.cached_rows.setdefault(plugin, []).append((path, tag, data))
        self.num_cached_rows += 1
''', '''        if plugin not in self.cached_rows:
            self.cached_rows[plugin] = []
        self.cached_rows[plugin].append((path, tag, data))
        self.num_cached_rows = self.num_cached_rows + 1
'''),
("libff/cache.py", '''        for table, in self.conn.execute("select name from sqlite_master where type = 'table'"):
            for path, in self.conn.execute(f"select path from {table}"):
                if not os.path.lexists(path):
                    self.conn.execute(f"delete from {table} where path = ?", (path,))
''', '''        tables = [row[0] for row in
                self.conn.execute("select name from sqlite_master where type = 'table'")]
        for table in tables:
            paths = self.conn.execute(f"select path from {table}").fetchall()
            vanished = [(path,) for path, in paths if not os.path.lexists(path)]
            self.conn.executemany(f"delete from {table} where path = ?", vanished)
'''),
("libff/cache.py", '''        tables = set(name for name, in curs
                if name.startswith(prefix) and name[len(prefix):].isdecimal())

        # Create a table if there is none for this plugin.
        if plugin_cls.sql_table_name not in tables:
            for statement in self.get_sql_create_table(plugin_cls):
                self.conn.execute(statement)
            self.conn.commit()
        else:
            tables.remove(plugin_cls.sql_table_name)

        for table in tables:
''', '''        tables = {row[0] for row in curs
                if row[0].startswith(prefix) and row[0][len(prefix):].isdecimal()}
        current = plugin_cls.sql_table_name

        # Create a table if there is none for this plugin.
        if current not in tables:
            for statement in self.get_sql_create_table(plugin_cls):
                self.conn.execute(statement)
            self.conn.commit()

        for table in sorted(tables - {current}):
'''),
# processing
("libff/processing.py", '''        if time.time() >= self.next_processes_check:
            for index, process in enumerate(self.walker.processes):
                if process.exitcode not in (None, 0):
                    self.logger.warning(f"process #{index} terminated abnormally")
                    self.context.set_exitcode(EX_PROCESS)
                    self.context.stop()
                    return True

            self.next_processes_check = time.time() + 10

        return False
''', '''        now = time.time()
        if now < self.next_processes_check:
            return False

        failed = [index for index, process in enumerate(self.walker.processes)
                  if process.exitcode is not None and process.exitcode != 0]
        if failed:
            self.logger.warning(f"process #{failed[0]} terminated abnormally")
            self.context.set_exitcode(EX_PROCESS)
            self.context.stop()
            return True

        self.next_processes_check = time.time() + 10
        return False
'''),
("libff/processing.py", '''        return self.context.is_stopping() or self.walker.wait(timeout) or \\
                self.check_for_failed_processes()
''', '''        if self.context.is_stopping():
            return True
        if self.walker.wait(timeout):
            return True
        return self.check_for_failed_processes()
'''),
("libff/processing.py", '''                process = subprocess.run(args, check=False)
                    if process.returncode != 0:
''', '''                returncode = subprocess.call(args)
                    if returncode != 0:
''') if False else ("libff/processing.py", '''                    process = subprocess.run(args, check=False)
                    if process.returncode != 0:
''', '''                    if subprocess.call(args) != 0:
'''),
("libff/processing.py", '''                    self.count[field] += value
''', '''                    self.count[field] = self.count.get(field, 0) + value
'''),
("libff/processing.py", '''                    self.count.setdefault(field, collections.Counter())[value] += 1
''', '''                    if field not in self.count:
                        self.count[field] = collections.defaultdict(int)
                    self.count[field][value] += 1
'''),
("libff/processing.py", '''            json.dump(count, sys.stdout, sort_keys=True)
            print()
''', '''            sys.stdout.write(json.dumps(count, sort_keys=True))
            sys.stdout.write("\\n")
'''),
("libff/processing.py", '''        try:
            print(line)
        except UnicodeEncodeError:
            encoding = sys.stdout.encoding
            print(line.encode(encoding, "backslashreplace").decode(encoding))
''', '''        try:
            sys.stdout.write(line + "\\n")
        except UnicodeEncodeError:
            encoding = sys.stdout.encoding
            line = line.encode(encoding, "backslashreplace").decode(encoding)
            sys.stdout.write(line + "\\n")
'''),
("libff/processing.py", '''            start, stop = self.args.limit
            return self.entries[start:stop]
''', '''            return self.entries[slice(*self.args.limit)]
'''),
("libff/processing.py", '''        if self.args.sort is not None:
            self.entries.sort(key=self.args.sort.render, reverse=self.args.reverse)
''', '''        if self.args.sort is not None:
            self.entries = sorted(self.entries, key=self.args.sort.render,
                                  reverse=self.args.reverse)
'''),
("libff/processing.py", '''        for _ in range(self.args.jobs):
            thread = threading.Thread(target=self.thread)
            thread.daemon = True
            thread.start()
            self.threads.append(thread)
''', '''        while len(self.threads) < self.args.jobs:
            thread = threading.Thread(target=self.thread, daemon=True)
            self.threads.append(thread)
            thread.start()
'''),
("libff/processing.py", '''        for thread in self.threads:
            self.queue.put(None)
        for thread in self.threads:
            thread.join()
''', '''        for _ in range(len(self.threads)):
            self.queue.put(None)
        while self.threads:
            self.threads.pop(0).join()
'''),
("libff/processing.py", '''        yield from (self.args.output.to_dict(entry) for entry in self.entries)
''', '''        for entry in self.entries:
            yield self.args.output.to_dict(entry)
'''),
# context
("libff/context.py", '''            if self.args.halt in ("never", "soon"):
                # Let this process finish regardless of the state of the main loop.
                exitcode = process.wait()

            elif self.args.halt == "now":
                # If the main loop is stopped, stop this process as well.
                while not self.is_stopping():
                    try:
                        exitcode = process.wait(0.1)
                        break
                    except subprocess.TimeoutExpired:
                        continue

                else:
                    process.terminate()
''', '''            if self.args.halt != "now":
                # Let this process finish regardless of the state of the main loop.
                exitcode = process.wait()
            else:
                exitcode = self.wait_or_terminate(process)
'''),
("libff/context.py", '''    def run_exec_process(self, args):
''', '''    def wait_or_terminate(self, process):
        """If the main loop is stopped, stop this process as well."""
        while True:
            if self.is_stopping():
                process.terminate()
                return 1
            try:
                return process.wait(timeout=0.1)
            except subprocess.TimeoutExpired:
                pass

    def run_exec_process(self, args):
'''),
("libff/context.py", '''        if exitcode != 0:
            self.set_exitcode(EX_SUBPROCESS)
            with self.process_failed.get_lock():
                self.process_failed.value += 1

            # Stop the main loop (and all running subprocesses).
            if self.args.halt in ("soon", "now"):
                self.stop()

        else:
            with self.process_succeeded.get_lock():
                self.process_succeeded.value += 1
''', '''        counter = self.process_succeeded if exitcode == 0 else self.process_failed
        with counter.get_lock():
            counter.value += 1

        if exitcode != 0:
            self.set_exitcode(EX_SUBPROCESS)

            # Stop the main loop (and all running subprocesses).
            if self.args.halt != "never":
                self.stop()
'''),
("libff/context.py", '''        try:
            self.barrier.wait(timeout)
        except threading.BrokenBarrierError:
            self.barrier.reset()
            return self.is_stopping()
        else:
            return True
''', '''        try:
            self.barrier.wait(timeout=timeout)
            return True
        except threading.BrokenBarrierError:
            self.barrier.reset()
        return self.is_stopping()
'''),
# ignore
("libff/ignore.py", '''        if self.regex.match(path if self.anchored else basename):
            if self.directory:
                if is_dir:
                    return True
            else:
                return True
        return False
''', '''        subject = path if self.anchored else basename
        if self.directory and not is_dir:
            return False
        return self.regex.match(subject) is not None
'''),
("libff/ignore.py", '''        for part in dirname.split(os.sep):
            parent = join(parent, part)
            for name in ignore_files:
                path = join(parent, name)
                if os.path.exists(path):
                    ignores.append(path)
        return ignores
''', '''        for part in dirname.split(os.sep):
            parent = join(parent, part)
            candidates = (join(parent, name) for name in ignore_files)
            ignores.extend(filter(os.path.exists, candidates))
        return ignores
'''),
("libff/ignore.py", '''        self.patterns = []
        key = None
        for line in self.lines:
            pattern = line.strip()
            if not pattern or pattern.startswith("#"):
                continue

            pattern = Glob(pattern)
            if pattern.get_group_key() != key:
                # Start new group.
                key = pattern.get_group_key()
                patterns = []
                self.patterns.append((key, patterns))
            patterns.append(pattern)

        self.patterns = [
                (key, re.compile("|".join(pattern.regex_pattern for pattern in patterns)))
                for key, patterns in self.patterns]
''', '''        stripped = (line.strip() for line in self.lines)
        globs = [Glob(text) for text in stripped if text and text[0] != "#"]
        self.patterns = []
        for key, group in itertools.groupby(globs, key=Glob.get_group_key):
            alternatives = [glob.regex_pattern for glob in group]
            self.patterns.append((key, re.compile("|".join(alternatives))))
'''),
("libff/ignore.py", "import collections\n", "import itertools\nimport collections\n"),
("libff/ignore.py", '''        ignore_path = None
        exclude = False
        for ignore in ignores:
            relpath = path[len(ignore.dirname):].lstrip(os.sep)

            for key, pattern in ignore.patterns:
                if key.directory and not is_dir:
                    continue
                test_path = relpath if key.anchored else name
                if pattern.match(test_path):
                    ignore_path = ignore.path
                    exclude = key.include

        return exclude, ignore_path if exclude else None
''', '''        # The last pattern decides.
        for ignore in reversed(ignores):
            relpath = path[len(ignore.dirname):].lstrip(os.sep)

            for key, pattern in reversed(ignore.patterns):
                if key.directory and not is_dir:
                    continue
                if pattern.match(relpath if key.anchored else name):
                    return (True, ignore.path) if key.include else (False, None)

        return False, None
'''),
# path
("libff/path.py", '''    if part1:
        if part2:
            if part1 == separator:
                return part1 + part2
            else:
                return part1 + separator + part2
        else:
            return part1
    else:
        return part2
''', '''    if not part1:
        return part2
    if not part2:
        return part1
    if part1 == separator:
        return f"{part1}{part2}"
    return separator.join((part1, part2))
'''),
("libff/path.py", '''    sep:int = path.rfind(separator)
    if sep < 0:
        return "", path
    elif sep == 0:
        return separator, path[1:]
    else:
        return path[:sep], path[sep + 1:]
''', '''    head, sep, tail = path.rpartition(separator)
    if sep and not head:
        head = separator
    return head, tail
'''),
("libff/path.py", '''    if dot > sep:
        idx:int = sep + 1
        while idx < dot:
            if path[idx:idx+1] != ".":
                return path[:dot], path[dot:]
            idx += 1

    return path, path[:0]
''', '''    if dot > sep and path[sep + 1:dot].strip("."):
        return path[:dot], path[dot:]

    return path, ""
'''),
]
