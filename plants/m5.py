"""Mutants for C41 and C37."""
MUTANTS = [
 ("C41", "registry.py", 'plugins.sort(key=lambda p: "" if p.name == "file" else p.name)', 'plugins = list({p.path: p for p in plugins}.values())'),
 ("C41", "help.py", "not in nothing" if 0 else 'getattr(plugin, name)}")', 'getattr(plugin, name, None)}")'),
 ("C41", "help.py", 'for attr, type_cls, help_text in plugin.attributes:', 'for attr, type_cls, help_text in sorted(set(plugin.attributes), key=lambda a: a[0]):'),
 ("C41", "help.py", 'for attr, type_cls, help_text in plugin.attributes:', 'for attr, type_cls, help_text in {a[2]: a for a in plugin.attributes}.values():'),
 ("C41", "help.py", "'Yes' if plugin.use_cache else 'No'", "'Yes' if plugin.cache_tag else 'No'"),
 ("C41", "help.py", 'if plugin.name == "file":', 'if plugin.source == "builtin":'),
 ("C41", "help.py", r'r"``([^`]+)``|"', r'r"``([^`]*)``|"'),
 ("C41", "help.py", r"'(?!s\s)([^']+)'|", r"'([^']+)'|"),
 ("C41", "help.py", "return f\"'{it}{match.group(1)}{rs}'\"", "return f\"{it}{match.group(1)}{rs}\""),
 ("C41", "help.py", 'return f"{bd}{match.group(4)}{rs}{match.group(5)}"', 'return f"{bd}{match.group(4)}{rs}"'),
 ("C41", "help.py", '" ".join(s.split()) for s in string.split("\\n\\n")', 's.strip() for s in string.split("\\n\\n")'),
 ("C41", "registry.py", 'return TypesManPage(sorted(self.registered_types, key=lambda t: t.name))', 'return TypesManPage(sorted(set(self.attributes.values()), key=lambda t: t.name))'),
 ("C41", "registry.py", 'raise UsageError(f"Plugin {name!r} not found") from exc', 'raise BadAttributeError(f"Plugin {name!r} not found") from exc'),
 ("C41", "help.py", 'raise SystemExit("calling man(1) failed") from exc', 'pass'),
 ("C41", "help.py", 'issubclass(obj, exceptions.BaseError) and', 'issubclass(obj, exceptions.BaseError) and obj.exitcode < 12 and'),
 ("C41", "argparse.py", "                    print(f\"  {option_string}\", file=file)\n                    print(help_text, file=file)", "                    print(f\"  {option_string}\", file=file)"),
 ("C41", "argparse.py", "            if isinstance(item, Option):\n                option_string = self.format_option(item)\n                print(f\"    {option_string}  {item.help}\"", "            if isinstance(item, Option):\n                option_string = self.format_option(item)\n                print(f\"    {option_string} {item.help}\""),
 ("C41", "help.py", '            if level < current_level or (current_level == 0 and level > 0) or "  " in line.lstrip():', '            if level < current_level or (current_level == 0 and level > 0):'),
 ("C41", "help.py", "                if text:\n                    yield text\n                yield \"\"", "                yield \"\""),
 ("C41", "help.py", "        if text:\n            yield text\n\n    def include", "    def include"),
 ("C41", "arguments.py", '    if args.help == "all":', '    if args.help == "all" and not args.tests:'),
 ("C41", "main.py", "            registry.get_plugin_manpage(args.help).show()\n            raise SystemExit(EX_OK)", "            registry.get_plugin_manpage(args.help).show()"),
]
