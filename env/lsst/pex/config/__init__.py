"""configurations: typed fields, nesting, retargetable sub-tasks, freezing"""
import copy


class FieldValidationError(ValueError):
    def __init__(self, field, config, msg):
        self.field, self.config = field, config
        super().__init__("%s: %s" % (getattr(field, "name", field), msg))


class Field(object):
    def __init__(self, doc="", dtype=None, default=None, check=None, optional=None, **kw):
        self.doc, self.default, self.check = doc, default, check
        self.dtype = dtype if dtype is not None else getattr(self, "_dtype", None)
        # as in pex_config: plain fields are required unless said otherwise
        self.optional = False if optional is None else optional

    @classmethod
    def __class_getitem__(cls, dtype):
        return type(cls.__name__, (cls,), {"_dtype": dtype})

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        return self if obj is None else obj._storage[self.name]

    def _assign(self, obj, value):
        obj._storage[self.name] = value

    def __set__(self, obj, value):
        if obj._frozen:
            raise FieldValidationError(self, obj, "Cannot modify a frozen Config")
        if value is not None:
            value = self.convert(obj, value)
        self._assign(obj, value)

    def convert(self, obj, value):
        t = self.dtype
        if t is float and isinstance(value, int) and not isinstance(value, bool):
            value = float(value)
        if t is int and type(value).__module__ == "numpy":
            value = int(value)
        if t in (int, float, str, bool) and type(value) is not t:
            raise FieldValidationError(self, obj, "Value %r is of incorrect type %s, expected %s"
                                       % (value, type(value).__name__, t.__name__))
        if self.check is not None and not self.check(value):
            raise FieldValidationError(self, obj, "Value %r failed check" % (value,))
        return value

    def default_for(self, obj):
        return copy.deepcopy(self.default)

    def validate(self, obj):
        if not self.optional and obj._storage[self.name] is None:
            raise FieldValidationError(self, obj, "Required value cannot be None")

    def freeze(self, obj):
        pass

    def to_plain(self, obj):
        return copy.deepcopy(obj._storage[self.name])


class RangeField(Field):
    def __init__(self, doc="", dtype=None, default=None, optional=None, min=None, max=None, **kw):
        super().__init__(doc, dtype, default, None, optional)


class ChoiceField(Field):
    def __init__(self, doc="", dtype=None, allowed=None, default=None, optional=None, **kw):
        super().__init__(doc, dtype, default, None, optional)
        self.allowed = dict(allowed or {})

    def convert(self, obj, value):
        value = super().convert(obj, value)
        if value not in self.allowed:
            raise FieldValidationError(self, obj, "Value %r is not allowed" % (value,))
        return value


class List(list):
    def __init__(self, config, it):
        self._config = config
        super().__init__(it)

    def _chk(self):
        if self._config._frozen:
            raise FieldValidationError("list", self._config, "Cannot modify a frozen Config")

    def append(self, v):
        self._chk()
        super().append(v)

    def __setitem__(self, i, v):
        self._chk()
        super().__setitem__(i, v)

    def __deepcopy__(self, memo):
        return list(self)


class ListField(Field):
    def convert(self, obj, value):
        if isinstance(value, str) or not hasattr(value, "__iter__"):
            raise FieldValidationError(self, obj, "Value %r is not a sequence" % (value,))
        return List(obj, [Field.convert(self, obj, v) for v in value])

    def default_for(self, obj):
        return None if self.default is None else List(obj, self.default)

    def to_plain(self, obj):
        v = obj._storage[self.name]
        return None if v is None else list(v)


class ConfigField(Field):
    def default_for(self, obj):
        d = self.default if self.default is not None else self.dtype
        return d() if isinstance(d, type) else copy.deepcopy(d)

    def convert(self, obj, value):
        if value is self.dtype:
            value = value()
        if not isinstance(value, self.dtype):
            raise FieldValidationError(self, obj, "Value %r is of incorrect type" % (value,))
        return value._copy()

    def validate(self, obj):
        obj._storage[self.name].validate()

    def freeze(self, obj):
        obj._storage[self.name].freeze()

    def to_plain(self, obj):
        return obj._storage[self.name].toDict()


class ConfigurableInstance(object):
    """what a ConfigurableField holds: a target (task class) and its config"""

    def __init__(self, owner, field):
        self.__dict__.update(_owner=owner, _field=field, _target=field.target,
                             _value=None, _name=field.name)
        self.__dict__["_value"] = field.target.ConfigClass()

    target = property(lambda self: self._target)
    value = property(lambda self: self._value)
    ConfigClass = property(lambda self: self._target.ConfigClass)

    def apply(self, *args, **kw):
        return self._target(*args, config=self._value, **kw)

    def retarget(self, target, ConfigClass=None):
        if self._owner._frozen:
            raise FieldValidationError(self._field, self._owner, "Cannot modify a frozen Config")
        self.__dict__["_target"] = target
        self.__dict__["_value"] = (ConfigClass or target.ConfigClass)()

    def __getattr__(self, name):
        return getattr(self._value, name)

    def __setattr__(self, name, value):
        if self._owner._frozen:
            raise FieldValidationError(self._field, self._owner, "Cannot modify a frozen Config")
        setattr(self._value, name, value)

    def __deepcopy__(self, memo):
        new = ConfigurableInstance(self._owner, self._field)
        new.__dict__.update(_target=self._target, _value=self._value._copy())
        return new


class ConfigurableField(Field):
    def __init__(self, doc="", target=None, default=None, **kw):
        super().__init__(doc)
        self.target = target

    def default_for(self, obj):
        return ConfigurableInstance(obj, self)

    def __set__(self, obj, value):
        if obj._frozen:
            raise FieldValidationError(self, obj, "Cannot modify a frozen Config")
        inst = obj._storage[self.name]
        if isinstance(value, ConfigurableInstance):
            inst.__dict__.update(_target=value._target, _value=value._value._copy())
        elif isinstance(value, type):
            inst.__dict__["_value"] = value()
        elif isinstance(value, inst.ConfigClass):
            inst.__dict__["_value"] = value._copy()
        else:
            raise FieldValidationError(self, obj, "Value %r is of incorrect type" % (value,))

    def validate(self, obj):
        obj._storage[self.name]._value.validate()

    def freeze(self, obj):
        obj._storage[self.name]._value.freeze()

    def to_plain(self, obj):
        return obj._storage[self.name]._value.toDict()


class DictField(Field):
    pass


class Config(object):
    def __init__(self, **kw):
        object.__setattr__(self, "_frozen", False)
        object.__setattr__(self, "_storage", {})
        for name, f in self._all_fields().items():
            self._storage[name] = f.default_for(self)
        self.setDefaults()
        self.update(**kw)

    @classmethod
    def _all_fields(cls):
        out = {}
        for c in reversed(cls.__mro__):
            for k, v in vars(c).items():
                if isinstance(v, Field):
                    out[k] = v
        return out

    def _copy(self):
        new = type(self)()
        for name, f in self._all_fields().items():
            v = self._storage[name]
            if isinstance(v, ConfigurableInstance):
                v2 = copy.deepcopy(v)
                v2.__dict__["_owner"] = new
            elif isinstance(v, Config):
                v2 = v._copy()
            elif isinstance(v, List):
                v2 = List(new, v)
            else:
                v2 = copy.deepcopy(v)
            new._storage[name] = v2
        return new

    def __setattr__(self, name, value):
        if name in self._all_fields():
            self._all_fields()[name].__set__(self, value)
        elif hasattr(getattr(type(self), name, None), "__set__"):
            if self._frozen:
                raise FieldValidationError(name, self, "Cannot modify a frozen Config")
            object.__setattr__(self, name, value)
        else:
            raise AttributeError("%s has no attribute %s" % (type(self).__name__, name))

    def setDefaults(self):
        pass

    def update(self, **kw):
        for k, v in kw.items():
            if k not in self._all_fields():
                raise KeyError("No field of name %s exists in config type %s" % (k, type(self).__name__))
            setattr(self, k, v)

    def validate(self):
        for f in self._all_fields().values():
            f.validate(self)

    def freeze(self):
        object.__setattr__(self, "_frozen", True)
        for f in self._all_fields().values():
            f.freeze(self)

    def toDict(self):
        return {name: f.to_plain(self) for name, f in self._all_fields().items()}

    def keys(self):
        return list(self._all_fields())

    def __iter__(self):
        return iter(self._all_fields())

    def __contains__(self, k):
        return k in self._all_fields()
