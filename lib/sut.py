"""Access to the code under test (public API only), on freshly built datasets."""
from . import gen
from .core import Violation, require


def model_class(name):
    from sureal.subjective_model import SubjectiveModel
    import sureal.pc_subjective_model  # noqa: registers the paired comparison models
    import sureal.experimental  # noqa
    return SubjectiveModel.find_subclass(name)


def reader(ds):
    from sureal.dataset_reader import RawDatasetReader
    return RawDatasetReader(gen.build(ds))


def pc_reader(p):
    from sureal.dataset_reader import PairedCompDatasetReader
    return PairedCompDatasetReader(gen.pc_build(p))


def run(name, ds, **kw):
    """Run the model called `name` on a fresh copy of the dataset description."""
    return model_class(name)(reader(ds)).run_modeling(**kw)


def run_pc(name, p, **kw):
    return model_class(name)(pc_reader(p)).run_modeling(**kw)


def refused(fn, what):
    """fn must raise an ordinary error."""
    try:
        fn()
    except (KeyboardInterrupt, SystemExit, MemoryError, Violation):
        raise
    except Exception:
        return True
    raise Violation('not refused: ' + what)


def keys(result, names, what):
    for n in names:
        require(n in result, '{}: result has no {}', what, n)
