"""the stand-ins of /verif/stubs, for specifications evaluated on concrete values"""
import importlib.util
import os

_spec = importlib.util.spec_from_file_location('vstub_cell_lists', os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'stubs', 'cell_lists.py'))
cell_lists = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(cell_lists)
