prop = "C28"
edits = [("python/podio_gen/podio_config_reader.py", """                    all_members[sub_member.name] = f"member '{member.name}'"
""", """                # members of a component are checked in the component itself
                all_members.update({m.name: classname for m in component["Members"] if m.is_builtin})
""")]
needs = "exposePODMembers and two members of component type that both contain a member with the same name which is itself a component or an array"
breaks = "the clash of the exposed names is not noticed and code that does not compile is generated"
extra = ["c28_exposed_clash_demo.py"]
