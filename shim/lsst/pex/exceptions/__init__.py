"""Stand-in for ``lsst.pex.exceptions`` (class hierarchy only).

The real package is a C++ extension that is not available in this sandbox.
The hierarchy below follows the documented Python wrappers.
"""
import builtins

__all__ = ["Exception", "LogicError", "DomainError", "InvalidParameterError",
           "LengthError", "OutOfRangeError", "RuntimeError", "RangeError",
           "OverflowError", "UnderflowError", "NotFoundError", "IoError",
           "TypeError"]


class Exception(builtins.Exception):
    def what(self):
        return str(self)


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class RangeError(RuntimeError):
    pass


class OverflowError(RuntimeError, builtins.OverflowError):
    pass


class UnderflowError(RuntimeError, builtins.ArithmeticError):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass


class IoError(RuntimeError, builtins.IOError):
    pass


class TypeError(LogicError, builtins.TypeError):
    pass
