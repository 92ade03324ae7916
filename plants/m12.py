"""Loading, setting up and running plugins."""
P = "C44"
R = "registry.py"
MUTANTS = [
 (P,R,'                if directory:\n                    yield "system", directory','                if not directory:\n                    break\n                yield "system", directory'),
 (P,R,'            for directory in plugin_dirs.split(os.pathsep):','            for directory in sorted(set(plugin_dirs.split(os.pathsep))):'),
 (P,R,'        yield "user", self.PLUGIN_DIR_USER','        if plugin_dirs is None:\n            yield "user", self.PLUGIN_DIR_USER'),
 (P,R,'        yield "user", self.PLUGIN_DIR_USER','        if os.path.isdir(self.PLUGIN_DIR_CONTRIB) or not plugin_dirs:\n            yield "user", self.PLUGIN_DIR_USER'),
 (P,R,'                        if not direntry.is_file() or','                        if not direntry.is_file(follow_symlinks=False) or'),
 (P,R,'                        if not direntry.is_file() or','                        if direntry.is_dir() or'),
 (P,R,'not direntry.name.endswith(".py") or','".py" not in direntry.name or'),
 (P,R,'direntry.name.startswith("_"):','direntry.name.startswith("__"):'),
 (P,R,'direntry.name.startswith("_"):','"_" in direntry.name:'),
 (P,R,'                            continue\n\n                        try:','                            break\n\n                        try:'),
 (P,R,'            except OSError:\n                continue','            except OSError:\n                break'),
 (P,R,'            except OSError:\n                continue','            except FileNotFoundError:\n                continue'),
 (P,R,'                        except Exception as exc:\n                            raise BadPluginError.from_exception(\n','                        except OSError:\n                            continue\n                        except Exception as exc:\n                            raise BadPluginError.from_exception(\n'),
 (P,R,'                        except Exception as exc:\n                            raise BadPluginError.from_exception(\n','                        except MissingImport:\n                            continue\n                        except Exception as exc:\n                            raise BadPluginError.from_exception(\n'),
 (P,R,'                        except Exception as exc:\n                            raise BadPluginError.from_exception(\n','                        except NoData:\n                            continue\n                        except Exception as exc:\n                            raise BadPluginError.from_exception(\n'),
 (P,R,"f\"Plugin file {direntry.path!r} failed to load\"","f\"Plugin file {direntry.name!r} failed to load\""),
 (P,R,'            self.logger.warning(f"Skipping already loaded plugin {plugin_cls.name!r} "\\\n                    f"from {path!r}")\n            return','            self.logger.warning(f"Skipping already loaded plugin {plugin_cls.name!r} "\\\n                    f"from {self.registered_plugins[plugin_cls.name].path!r}")\n            return'),
 (P,R,'        if plugin_cls.name in self.registered_plugins:','        if plugin_cls.name in self.registered_plugins and source != "user":'),
 (P,R,'        if plugin_cls.name in self.registered_plugins:','        if plugin_cls.name in self.registered_plugins and \\\n                self.registered_plugins[plugin_cls.name].source != source:'),
 (P,R,'            if not issubclass(type_cls, tuple(self.registered_types)):','            if self.registered_types and not issubclass(type_cls, (tuple(self.registered_types), str)):'),
 (P,R,'            if type(obj) is not type:\n                continue','            if type(obj) is not type:\n                break'),
 (P,R,'                self.register_plugin(source, path, obj)','                self.register_plugin(source, path, obj)\n                break'),
 (P,R,'            elif issubclass(obj, Plugin) and obj is not Plugin:','            elif issubclass(obj, Plugin) and obj is not Plugin and obj.__name__[0].isupper():'),
 (P,R,'        except MissingImport as exc:\n            raise BadPluginError(f"Plugin {name!r} needs the following module: {exc.module!r}") \\\n                    from exc\n',''),
 (P,R,'needs the following module: {exc.module!r}")','needs a module that is not installed")'),
 (P,R,'            raise BadPluginError.from_exception(f"Unable to setup plugin {name!r}") from exc','            raise UsageError(f"Unable to setup plugin {name!r}") from exc'),
 (P,R,'        except Exception as exc:\n            raise BadPluginError.from_exception(f"Unable','        except ValueError as exc:\n            raise BadPluginError.from_exception(f"Unable'),
 (P,R,'            if attribute.plugin not in self.plugins:\n                self.init_plugin(attribute.plugin)','            if attribute.plugin not in self.plugins or self.optimize_for_slow_plugins or attribute.name_ != attribute.name if hasattr(attribute, "name_") else True:\n                self.init_plugin(attribute.plugin)'),
 (P,R,'        except NotImplementedError as exc:\n            raise BadPluginError.from_exception(\n                    f"Plugin {plugin.name!r} is','        except NotImplementedError as exc:\n            raise BadPluginError.from_exception(\n                    f"Plugin is'),
 (P,R,'        except NotImplementedError as exc:\n            raise BadPluginError.from_exception(\n                    f"Plugin {plugin.name!r} is not completely implemented") from exc\n','        except (NotImplementedError, KeyError):\n            return {}\n'),
 (P,R,'        except NoData:\n            return {}','        except (NoData, OSError):\n            return {}'),
 (P,R,'        except NoData:\n            return {}\n',''),
 (P,R,'        with self.context.global_lock:\n            if not self.registered_plugins:\n                self.load_plugins()','        with self.context.global_lock:\n            if not self.registered_plugins:\n                self.load_plugins()\n                for name in self.registered_plugins:\n                    self.init_plugin(name)'),
 (P,R,'        self.registered_types.add(type_cls)','        if type_cls.__module__.startswith("libff"):\n            self.registered_types.add(type_cls)'),
 (P,"plugin.py",'        cls.name = cls.__name__.lower()','        cls.name = cls.__name__'),
 (P,"exceptions.py",'EX_BAD_PLUGIN = 10','EX_BAD_PLUGIN = 4'),
 (P,R,'        yield "builtin", self.PLUGIN_DIR_BUILTIN\n','        yield "builtin", self.PLUGIN_DIR_BUILTIN\n        yield "user", self.PLUGIN_DIR_USER\n', R,'        yield "user", self.PLUGIN_DIR_USER\n\n',"\n"),
 (P,R,'            yield "contrib", self.PLUGIN_DIR_CONTRIB','            if not os.environ.get("FF_PLUGIN_DIRS"):\n                yield "contrib", self.PLUGIN_DIR_CONTRIB'),
 (P,R,'    @functools.lru_cache(maxsize=128)\n    def get_data(','    def get_data('),
]
