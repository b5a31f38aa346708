"""Exceptions that are injected."""


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


class Boom(Exception):
    pass


class Unpicklable(Exception):
    """Cannot be sent to another process."""

    def __init__(self, *args):
        super().__init__(*args)
        self.file = lambda: None


class Unloadable(Exception):
    """Can be sent, but not received."""

    def __init__(self, one, two=None):
        super().__init__(one)

    def __reduce__(self):
        return Unloadable, ()


class Silent(Exception):
    """Cannot be shown."""

    def __str__(self):
        raise RuntimeError('no text')

    __repr__ = __str__


class Quit(SystemExit):
    pass
