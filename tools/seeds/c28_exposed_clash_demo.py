from podio_gen.podio_config_reader import PodioConfigReader
from podio_gen.generator_utils import DefinitionError

for sub in ("Inner in", "std::array<int, 2> in", "int in"):
    model = {"schema_version": 1, "options": {"exposePODMembers": True},
             "components": {"Inner": {"Members": ["int a"]}, "P": {"Members": [sub, "int b"]}, "Q": {"Members": [sub, "int c"]}},
             "datatypes": {"Hit": {"Description": "d", "Author": "a", "Members": ["P p // first", "Q q // second"]}}}
    try:
        PodioConfigReader.parse_model(model, "pkg")
    except DefinitionError:
        continue
    raise SystemExit("FAILED: the name 'in' of '%s' is exposed twice" % sub)
