"""Shared by the dialplan harnesses."""
from asterisklint import FileDialplanParser
from asterisklint.application import AppLoader
from asterisklint.varfun import VarLoader
from props.common import MemFile


def warm():
    """Load the application and function tables once."""
    AppLoader()
    VarLoader()


def load(files):
    """files: {name: [bytes line]}; the main file is 'm' -> Dialplan"""
    def opener(path):
        for name in files:
            if name == path:
                return MemFile(path, files[name])
        raise FileNotFoundError(2, 'No such file', path)
    parser = FileDialplanParser(opener=opener)
    parser.include('m')
    out = [d for d in parser]
    assert len(out) == 1
    return out[0]
