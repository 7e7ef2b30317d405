from podio_gen.podio_config_reader import PodioConfigReader
from podio_schema_evolution import DataModelComparator, SchemaEvolutionJudge, ChangedMemberType

C = {"a::Point": {"Members": ["int x"]}, "b::Point": {"Members": ["double x"]}}


def model(t, v):
    return PodioConfigReader.parse_model(
        {"schema_version": v, "components": C, "datatypes": {"Hit": {"Description": "d", "Author": "a", "Members": [f"{t} pos // where"]}}}, "pkg")


for old, new in (("a::Point", "b::Point"), ("std::array<a::Point, 2>", "std::array<b::Point, 2>")):
    o, n = model(old, 1), model(new, 2)
    changes = DataModelComparator(n).compare(o)
    res = SchemaEvolutionJudge(n).judge(o, changes)
    if len(changes) != 1 or not isinstance(changes[0], ChangedMemberType) or len(res.errors) != 1:
        raise SystemExit("FAILED: change from %s to %s: %s" % (old, new, changes))
