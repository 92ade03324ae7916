"""Edits that keep the behaviour, in the loading of plugins (tools/refactor.py)."""
EDITS = [
("libff/registry.py", '''        for source, directory in self.iter_plugin_dirs():
            try:
                with os.scandir(directory) as direntries:
                    for direntry in direntries:
                        if not direntry.is_file() or not direntry.name.endswith(".py") or \\
                                direntry.name.startswith("_"):
                            continue

                        try:
                            self.load_plugin(direntry.name[:-3], source, direntry.path)
                        except Exception as exc:
                            raise BadPluginError.from_exception(
                                    f"Plugin file {direntry.path!r} failed to load") from exc

            except OSError:
                continue
''', '''        for source, directory in self.iter_plugin_dirs():
            for name, path in self.find_plugin_files(directory):
                self.try_load_plugin(name, source, path)
'''),
("libff/registry.py", '''    def init_plugin(self, name):''', '''    def find_plugin_files(self, directory):
        """Return the plugin files in a directory.
        """
        try:
            filenames = os.listdir(directory)
        except OSError:
            return []
        return [(os.path.splitext(name)[0], os.path.join(directory, name)) for name in filenames
                if name.endswith(".py") and name[0] != "_" and os.path.isfile(os.path.join(directory, name))]

    def try_load_plugin(self, name, source, path):
        """Load a plugin or raise BadPluginError.
        """
        try:
            self.load_plugin(name, source, path)
        except Exception as exc:
            raise BadPluginError.from_exception(f"Plugin file {path!r} failed to load") from exc

    def init_plugin(self, name):'''),
("libff/registry.py", '''        plugin_dirs = os.environ.get("FF_PLUGIN_DIRS")
        if plugin_dirs is not None:
            for directory in plugin_dirs.split(os.pathsep):
                if directory:
                    yield "system", directory
''', '''        for directory in filter(None, os.getenv("FF_PLUGIN_DIRS", "").split(os.pathsep)):
            yield "system", directory
'''),
("libff/registry.py", '''        spec = importlib.util.spec_from_file_location(name, path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        self.inspect_namespace(source, path, module)
''', '''        spec = importlib.util.spec_from_file_location(location=path, name=name)
        assert spec is not None
        loader = spec.loader
        module = importlib.util.module_from_spec(spec)
        loader.exec_module(module)
        self.inspect_namespace(source, path, module)
'''),
("libff/registry.py", '''        for obj in vars(module).values():
            if type(obj) is not type:
                continue

            if issubclass(obj, Type) and obj is not Type:
                self.register_type(obj)

            elif issubclass(obj, Plugin) and obj is not Plugin:
                self.register_plugin(source, path, obj)
''', '''        classes = [obj for obj in module.__dict__.values() if type(obj) is type]
        for obj in classes:
            if obj is Type or obj is Plugin:
                continue
            if issubclass(obj, Type):
                self.register_type(obj)
        for obj in classes:
            if obj is not Plugin and issubclass(obj, Plugin):
                self.register_plugin(source, path, obj)
'''),
("libff/registry.py", '''        except MissingImport as exc:
            raise BadPluginError(f"Plugin {name!r} needs the following module: {exc.module!r}") \\
                    from exc
        except Exception as exc:
''', '''        except Exception as exc:
            if isinstance(exc, MissingImport):
                raise BadPluginError(f"Plugin {name!r} needs the module {exc.module!r}") from exc
'''),
]
