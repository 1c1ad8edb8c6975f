import builtins


class Exception(builtins.Exception):
    pass


class LogicError(Exception):
    pass


class LengthError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass
