from podio_gen.schema_evolution import SchemaMigrationReader, ChangeType

m = {"migrations": {"hit": [{"from_version": 1, "to_version": 2, "rename_member": {"from": "hit", "to": "index"}},
                            {"from_version": 1, "to_version": 2, "rename_datatype": {"from": "hit", "to": "Hit"}}]}}
got = SchemaMigrationReader._parse_migrations(m)
if [x.type for x in got["hit"]] != [ChangeType.RENAME_MEMBER, ChangeType.RENAME_DATATYPE]:
    raise SystemExit("FAILED: %s" % got)
