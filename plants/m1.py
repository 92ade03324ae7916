"""Edits tried against the checks (tools/mutants.py), written from the properties and the code."""
MUTANTS = [
    # C14, C15: the walk
    ("C14", "walk.py", "for i in range(0, len(search), chunk_size):", "for i in range(0, len(search) - 1, chunk_size):"),
    ("C14", "walk.py", "            process = process[100:]", "            process = process[101:]"),
    ("C14", "walk.py", "                    except PermissionError:\n                        # Do not warn about files that we are not allowed to access.\n                        continue", "                    except PermissionError:\n                        # Do not warn about files that we are not allowed to access.\n                        break"),
    ("C14", "walk.py", "                if self.excluder.test(entry):\n                    continue\n", "                if self.excluder.test(entry):\n                    is_dir = is_dir and entry.depth > 0\n"),
    ("C14", "walk.py", "                    split = len(entries) // 2 + 1\n                    self.queue.put(Entries(parent, entries[split:]))", "                    split = len(entries) // 2 + 1\n                    self.queue.put(Entries(parent, entries[split + 1:]))"),
    ("C14", "walk.py", "                elif self.matcher.test(entry):\n                    process.append(entry)\n\n                if is_dir:", "                elif self.matcher.test(entry):\n                    process.append(entry)\n\n                elif is_dir:"),
    ("C14", "walk.py", "        if entries:\n            self.process_entries(parent, entries)", "        if len(entries) > 1 or entries and not entries[0].is_symlink():\n            self.process_entries(parent, entries)"),
    ("C14", "entry.py", "            self.link = os.readlink(self.path)\n", "            self.link = os.readlink(self.path)\n            os.stat(os.path.dirname(self.path) or '.')\n"),
    ("C14", "walk.py", "        ignore_paths = parent.ignore_paths.copy()", "        ignore_paths = parent.ignore_paths"),
    ("C15", "walk.py", "        ignore_paths = parent.ignore_paths.copy()", "        ignore_paths = parent.ignore_paths"),
    ("C10", "walk.py", "        ignore_paths = parent.ignore_paths.copy()", "        ignore_paths = parent.ignore_paths"),
    # C10
    ("C10", "ignore.py", "        for part in dirname.split(os.sep):", "        for part in dirname.split(os.sep)[1:]:"),
    ("C10", "ignore.py", "            if self.directory:\n                if is_dir:\n                    return True\n            else:\n                return True", "            return is_dir or not self.directory"),
    # C11-C13
    ("C11", "path.py", "            if path[idx:idx+1] != \".\":", "            if path[idx:idx+1] not in (\".\", \"-\"):"),
    ("C11", "path.py", "    elif sep == 0:\n        return separator, path[1:]", "    elif sep == 0:\n        return \"\", path[1:]"),
    ("C11", "path.py", "            if part1 == separator:", "            if part1.endswith(separator):"),
    ("C11", "entry.py", "        return any(part.startswith(\".\") for part in self.path.split(os.sep))", "        return any(part.startswith(\".\") for part in self.relpath.split(os.sep))"),
    ("C11", "entry.py", "        return os.path.basename(self.pathx)", "        return splitext(self.name)[0]"),
    ("C11", "entry.py", "        return self.relpath.count(os.sep)", "        return self.path.count(os.sep) - self.root.count(os.sep)"),
    ("C12", "entry.py", "            self.broken = not os.path.exists(self.target)", "            self.broken = not os.path.lexists(self.target)"),
    ("C12", "entry.py", "            self.target = os.path.realpath(join(self.dir, self.link))", "            self.target = os.path.realpath(join(self.root, self.link))"),
    ("C12", "entry.py", "        return int(self.status.st_ctime)", "        return int(min(self.status.st_ctime, self.status.st_mtime))"),
    ("C12", "entry.py", "        return self.status.st_mode & Mode.MODE_ALL", "        return self.status.st_mode & 0o777"),
    ("C12", "entry.py", "        return int(self.status.st_mtime)", "        return self.status.st_mtime // 1"),
    ("C12", "entry.py", "            except OSError:\n                # If we cannot access the directory's contents, we declare it non-empty.\n                return False", "            except OSError:\n                # If we cannot access the directory's contents, we declare it non-empty.\n                return True"),
    ("C13", "entry.py", "            self.entries.sort(reverse=True)", "            self.entries.sort(key=lambda e: e[0].count(os.sep), reverse=True)"),
    ("C13", "entry.py", "        return self.fstype in pseudo_fs", "        return self.fstype in pseudo_fs or self.devname in pseudo_fs"),
    ("C13", "entry.py", "lambda match: chr(int(match.group(1), 8)), field)", "lambda match: chr(int(match.group(1), 8) & 0x7f), field)"),
    # C27
    ("C27", "cache.py", "and name[len(prefix):].isdecimal())", "and name[len(prefix):])"),
    ("C27", "cache.py", "        if self.num_cached_rows > 0:\n            if __debug__:", "        if self.num_cached_rows > 1:\n            if __debug__:"),
    ("C27", "cache.py", "where path = ? and tag = ?\",\n                (path, tag)", "where path = ? and tag >= ?\",\n                (path, tag)"),
    ("C27", "cache.py", "        self.num_cached_rows = 0\n        self.cached_rows = {}\n        self.last_commit = time.time()\n\n    def clean", "        self.num_cached_rows = 0\n        self.last_commit = time.time()\n\n    def clean"),
    ("C27", "cache.py", "                if not os.path.lexists(path):", "                if not os.path.isfile(path):"),
    ("C27", "cache.py", "insert or replace into", "insert or ignore into"),
    ("C27", "cache.py", "                    else:\n                        raise\n                else:\n                    break", "                    else:\n                        raise\n                break"),
    ("C27", "registry.py", "                self.cache.set(plugin, entry.abspath, tag, cached)", "                self.cache.set(plugin, entry.abspath, plugin.get_entry_cache_tag(entry), cached or NODATA)"),
    ("C27", "registry.py", "                cached = self.cache.get(plugin, entry.abspath, tag)", "                cached = self.cache.get(plugin, entry.path, tag)"),
    ("C27", "registry.py", "                    except NoData:\n                        # Do not", "                    except (NoData, OSError):\n                        # Do not"),
    # C28
    ("C28", "registry.py", "            if \"file\" in plugin_names:", "            if \"file\" in plugin_names and len(plugin_names) == 1:"),
    ("C28", "registry.py", "    @functools.lru_cache(maxsize=128)\n    def get_data(self, entry, plugin):", "    @functools.lru_cache(maxsize=128)\n    def get_data(self, entry, plugin):\n        plugin = getattr(self, 'last', None) or plugin"),
    ("C28", "registry.py", "for attribute in self.attributes if attribute.name == name)", "for attribute in self.attributes if attribute.name.startswith(name))"),
    # C17
    ("C17", "walk.py", "            process.daemon = True\n", ""),
    ("C17", "walk.py", "if self.queue.qsize() == 0 and self.context.barrier_wait():", "if self.context.barrier_wait():"),
    ("C17", "processing.py", "                if done:\n                    break\n                done = self.processing_done()", "                if self.processing_done():\n                    break"),
    ("C17", "processing.py", "self.walker.wait(timeout) or", "self.context.barrier_wait(timeout) or"),
    ("C17", "context.py", "            self.barrier.reset()\n            return self.is_stopping()", "            return self.is_stopping()"),
    ("C17", "context.py", "            self.barrier.reset()\n            return self.is_stopping()", "            self.barrier.reset()\n            return self.is_stopping() or self.idle_processes() > 0"),
    ("C17", "context.py", "            with self.process_failed.get_lock():\n                self.process_failed.value += 1", "            self.process_failed.value += 1"),
    ("C17", "context.py", "            with self.process_succeeded.get_lock():\n                self.process_succeeded.value += 1", "            self.process_succeeded.value += 1"),
    ("C17", "processing.py", "                if process.exitcode not in (None, 0):", "                if process.exitcode not in (None, 0, 1):"),
    ("C17", "walk.py", "            self.context.set_exitcode(EX_PROCESS)\n            self.context.stop()\n", "            self.context.stop()\n"),
    ("C17", "walk.py", "            self.context.set_exitcode(EX_PROCESS)\n            self.context.stop()\n", "            self.context.set_exitcode(EX_PROCESS)\n"),
    ("C17", "find.py", "            for process in self.context.walker.processes:\n                process.terminate()\n", ""),
    ("C17", "console.py", "        with self.context.output_lock:\n            try:\n                print(line, end=self.args.newline)", "        if True:\n            try:\n                print(line, end=self.args.newline)"),
    ("C17", "console.py", "            # buffers being written.\n            sys.stdout.flush()", "            # buffers being written."),
    ("C17", "processing.py", "            self.next_processes_check = time.time() + 10\n\n        return False", "            self.next_processes_check = time.time() + 10\n\n        return not self.walker.queue.qsize()"),
    ("C17", "context.py", "            num_jobs = self.args.jobs\n", "            num_jobs = self.args.jobs + 1\n"),
    ("C17", "context.py", "        return self.stop_queue.qsize() > 0", "        return not self.stop_queue.empty() and self.stop_queue.get() is None"),
    ("C37", "main.py", "        except BrokenPipeError:\n            self.context.stop_output()", "        except BrokenPipeError:\n            self.context.stop()"),
    ("C37", "walk.py", "        except BrokenPipeError:\n            self.context.stop_output()\n\n", ""),
    ("C37", "main.py", "            self.context.processing.close()\n            sys.stdout.flush()\n", "            self.context.processing.close()\n"),
    ("C37", "main.py", "        except BrokenPipeError:", "        except ConnectionError:"),
]
