"""State kept from one entry to the next in filtering, rendering and ordering."""
MUTANTS = [
 ("C22","console.py",'        output = []\n        for field','        output = self.__dict__.setdefault("buf", [])\n        del output[len(self.fields):]\n        for field'),
 ("C22","console.py",'        """Format a field for output, i.e. render colors if required, pad with spaces, etc.\n        """\n        string = self.render_field(entry, field)','        """Format.\n        """\n        memo = self.__dict__.setdefault("memo", {})\n        if (entry.relpath, field.attribute) not in memo:\n            memo[entry.relpath, field.attribute] = self.render_field(entry, field)\n        string = memo[entry.relpath, field.attribute]'),
 ("C22","console.py",'                output.append(self.format_field(entry, field))','                self.last = self.format_field(entry, field)\n                output.append(self.last)',
   "console.py",'                    output.append("")','                    output.append(getattr(self, "last", "") if self.args.all and field.modifier != "n" else "")'),
 ("C22","console.py",'                output.append(self.format_field(entry, field))','                memo = self.__dict__.setdefault("memo", {})\n                if entry.is_symlink() or (entry.status.st_ino, field) not in memo:\n                    memo[entry.status.st_ino, field] = self.format_field(entry, field)\n                output.append(memo[entry.status.st_ino, field])'),
 ("C42","console.py",'        else:\n            return self.render_file(entry.ext, entry.name)','        else:\n            memo = self.__dict__.setdefault("memo", {})\n            return memo.setdefault((entry.name), self.render_file(entry.ext, entry.name)) if entry.is_file() else self.render_file(entry.ext, entry.name)'),
 ("C42","console.py",'        elif entry.is_executable():','        elif self.__dict__.setdefault("memo", {}).setdefault((entry.name, entry.size), entry.is_executable()):'),
 ("C01","filter.py",'                    value, type_cls = self.registry.get_attribute_and_type(entry, test.attribute)\n                except KeyError:','                    value, type_cls = self.last = self.registry.get_attribute_and_type(entry, test.attribute)\n                except (KeyError, IndexError):'),
 ("C01","filter.py",'                else:\n                    yield type_cls.test(entry, test, value)','                else:\n                    memo = self.__dict__.setdefault("memo", {})\n                    key = (id(test), str(value))\n                    if key not in memo:\n                        memo[key] = type_cls.test(entry, test, value)\n                    yield memo[key]'),
 ("C01","filter.py",'                else:\n                    yield type_cls.test(entry, test, value)','                else:\n                    memo = self.__dict__.setdefault("memo", {})\n                    key = (id(test), entry.name)\n                    if key not in memo:\n                        memo[key] = type_cls.test(entry, test, value)\n                    yield memo[key]'),
 ("C15","filter.py",'                else:\n                    yield type_cls.test(entry, test, value)','                else:\n                    memo = self.__dict__.setdefault("memo", {})\n                    key = (id(test), entry.name)\n                    if key not in memo:\n                        memo[key] = type_cls.test(entry, test, value)\n                    yield memo[key]'),
 ("C33","registry.py",'        data = self.get_data(entry, attribute.plugin)\n        return data[attribute.name]','        data = self.get_data(entry, attribute.plugin)\n        self.__dict__.setdefault("seen", {}).update(data)\n        return data[attribute.name] if data else self.seen[attribute.name]'),
 ("C28","registry.py",'        data = self.get_data(entry, attribute.plugin)\n        return data[attribute.name]','        data = self.get_data(entry, attribute.plugin)\n        self.__dict__.setdefault("seen", {}).update(data)\n        return data[attribute.name] if data else self.seen[attribute.name]'),
 ("C23","field.py",'        record = AttributeDict(self.fields)\n','        record = self.__dict__.setdefault("record", AttributeDict(self.fields))\n', "field.py",'                value = None\n','                value = record.get(str(field.attribute))\n'),
 ("C34","field.py",'        record = AttributeDict(self.fields)\n','        record = self.__dict__.setdefault("record", AttributeDict(self.fields))\n'),
 ("C23","field.py",'                value = None\n            else:','                value = getattr(self, "last", None) if len(self) > 2 else None\n            else:\n                self.last = value'),
]
