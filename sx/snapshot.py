"""Snapshot and restoration of the mutable state reachable from the library's modules and the calculators between paths."""
import decimal
import sys
import types

STOP = (types.ModuleType,)


class Snapshot:
    def __init__(self, roots, prefix='modularcalculator'):
        self.prefix = prefix
        self.dicts, self.lists, self.sets, self.classes = [], [], [], []
        self.keep = []
        seen = set()
        todo = list(roots)
        for name, m in list(sys.modules.items()):
            if m is not None and (name == prefix or name.startswith(prefix + '.')):
                todo.append(m.__dict__)
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            t = type(o)
            if t is dict:
                if '__builtins__' in o and '_sx_call' not in o:
                    continue
                self.keep.append(o)
                self.dicts.append((o, dict(o)))
                todo.extend(v for k, v in o.items() if k not in ('__builtins__',) and not (isinstance(k, str) and k.startswith('_sx_')))
            elif t is list:
                self.keep.append(o)
                self.lists.append((o, list(o)))
                todo.extend(o)
            elif t is tuple:
                todo.extend(o)
            elif t is set:
                self.keep.append(o)
                self.sets.append((o, set(o)))
            elif t is types.FunctionType:
                if o.__module__ and o.__module__.startswith(prefix):
                    todo.extend(o.__defaults__ or ())
                    if o.__dict__:
                        todo.append(o.__dict__)
                    for cell in o.__closure__ or ():
                        try:
                            todo.append(cell.cell_contents)
                        except ValueError:
                            pass
            elif isinstance(o, type):
                if (o.__module__ or '').startswith(prefix):
                    self.classes.append((o, dict(o.__dict__)))
                    todo.extend(v for v in o.__dict__.values())
                    todo.extend(o.__bases__)
            elif t in (staticmethod, classmethod):
                todo.append(o.__func__)
            elif (t.__module__ or '').startswith(prefix):
                todo.append(t)
                d = getattr(o, '__dict__', None)
                if d is not None:
                    todo.append(d)
        self.ctx = decimal.getcontext().copy()
        self.sizes = (len(self.dicts), len(self.lists), len(self.sets), len(self.classes))

    def restore(self):
        for o, s in self.dicts:
            if len(o) != len(s) or (len(s) < 40 and list(o) != list(s)):
                o.clear()
                o.update(s)
            else:
                o.update(s)
                if len(o) != len(s):
                    o.clear()
                    o.update(s)
        for o, s in self.lists:
            o[:] = s
        for o, s in self.sets:
            if o != s:
                o.clear()
                o.update(s)
        for c, s in self.classes:
            d = c.__dict__
            if len(d) != len(s) or any(d.get(k) is not v for k, v in s.items()):
                for k in list(d):
                    if k not in s:
                        delattr(c, k)
                for k, v in s.items():
                    if d.get(k) is not v and k not in ('__dict__', '__weakref__'):
                        setattr(c, k, v)
        decimal.setcontext(self.ctx.copy())
