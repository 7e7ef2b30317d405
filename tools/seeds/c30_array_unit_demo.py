import json
from podio_gen.podio_config_reader import PodioConfigReader
from podio_gen.generator_utils import DataModelJSONEncoder

model = {"schema_version": 1, "components": {"P": {"Members": ["int x", "int y"]}, "Q": {"Members": ["P p{1, 2}", "int z{3}"]}},
         "datatypes": {"Hit": {"Description": "d", "Author": "a", "Members": ["Q q{{}, 4} [mm] // a component", "int i{5} // a number", "std::array<int, 2> a{6, 7} [mm] // an array"]}}}
m = PodioConfigReader.parse_model(model, "pkg")
back = PodioConfigReader.parse_model(json.loads(json.dumps(m, cls=DataModelJSONEncoder)), "pkg")
for a, b in zip(m.components["Q"]["Members"] + m.datatypes["Hit"]["Members"], back.components["Q"]["Members"] + back.datatypes["Hit"]["Members"]):
    if str(a) != str(b):
        raise SystemExit("FAILED: %s is stored as %s" % (a, b))
