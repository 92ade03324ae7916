"""Mutants for C40."""
MUTANTS = [
 ("C40", "arguments.py", "                self.args.sort = None\n", ""),
 ("C40", "logger.py", "file=sys.stderr)\n\n    def warning", "file=sys.stdout)\n\n    def warning"),
 ("C40", "logger.py", "                self.tags_emitted.add(tag)", "                pass"),
 ("C40", "arguments.py", "if self.args.count and (self.args.exec or self.args.exec_batch):", "if self.args.count and self.args.exec:"),
 ("C40", "arguments.py", 'if self.args.output != ["path"] and (self.args.exec or self.args.exec_batch):', 'if self.args.output != ["path"] and self.args.exec:'),
 ("C40", "builtin/ignore.py", 'tag=f"ignore-{path}"', 'tag="ignore"'),
 ("C40", "builtin/ignore.py", ', tag=f"ignore-{path}"', ''),
 ("C40", "filter.py", 'with -H/--hide",\n                    tag="hide")', 'with -H/--hide")'),
 ("C40", "filter.py", 'attribute.name in ("hide", "hidden")', 'attribute.name == "hidden"'),
 ("C40", "filter.py", 'self.args.hide and attribute.plugin', 'attribute.plugin'),
 ("C40", "walk.py", """        except PermissionError:
            # Do not warn about directories that we are not allowed to enter.
            pass
""", ""),
 ("C40", "walk.py", """                    except PermissionError:
                        # Do not warn about files that we are not allowed to access.
                        continue
""", ""),
 ("C40", "walk.py", "                        self.logger.warning(exc)\n                        continue", "                        continue"),
 ("C40", "arguments.py", "if self.args.limit is not None and not self.args.sort:", "if self.args.limit is not None and self.args.sort is None and not self.args.exec:"),
 ("C40", "arguments.py", "if self.args.limit is not None and not self.args.sort:", "if self.args.limit and self.args.limit[1] is not None and not self.args.sort:"),
 ("C40", "arguments.py", "        self.check_for_errors()\n        return self.collect_warnings()", "        warnings = self.collect_warnings()\n        self.check_for_errors()\n        return warnings"),
 ("C40", "arguments.py", "            if self.args.sort:\n                self.args.sort = None", "            if self.args.sort and len(self.args.sort) == 1:\n                self.args.sort = None"),
 ("C40", "arguments.py", "        if self.args.count and self.args.limit is not None:", "        if self.args.count and self.args.limit is not None and self.args.limit[0]:"),
 ("C40", "context.py", "            self.logger.error(exc, None)", "            pass"),
 ("C40", "context.py", "            self.logger.error(exc, None)", "            print(exc)"),
]
