from .driver import Unit
from .claims import P as CLAIMS
PROPS = {}
PROPS["C01"] = dict(
    level="model_checking",
    units=[Unit("h_data.cpp", {"hm_multi": dict(covers=["two"], cost=5), "hm_vecs": dict(covers=["two"], cost=9)}, models=["vm"])])
PROPS["C02"] = dict(level="model_checking", units=[Unit("h_rel.cpp", {
  "hm_single": dict(covers=["cycle","missing target"], cost=9), "hm_multi": dict(covers=["second round trip","full"], cost=9),
  "hm_untracked": dict(covers=["refused"]), "hm_mixed": dict(covers=["two"],cost=5), "hm_iface": dict(covers=["mixed types"],cost=8)}, models=["vm"])])
PROPS["C03"] = dict(level="model_checking", units=[Unit("h_subset.cpp", {
  "hm_subset_rt": dict(covers=["three","missing"], cost=9), "hm_subset_rel": dict(covers=["done"], cost=5),
  "hm_subset_rules": dict(covers=["done"]), "hm_subset_life": dict(covers=["done"]), "hm_subset_from": dict(covers=["three"]), "hm_subset_from_link": dict(covers=["three"])}, models=["vm"])])
PROPS["C04"] = dict(level="model_checking", units=[Unit("h_coll.cpp", {
  "hm_access": dict(covers=["valid index"]), "hm_iter": dict(covers=["offset"], cost=5), "hm_members": dict(covers=["some"]), "hm_clear": dict(covers=["refilled"], cost=3), "hm_clear_read": dict(covers=["done"], cost=2), "hm_move": dict(covers=["two"])}, models=["vm"])])
PROPS["C05"] = dict(level="model_checking", units=[Unit("h_coll.cpp", {
  "hm_identity_hit": dict(covers=["all added"], cost=5), "hm_identity_part": dict(covers=["all added"], cost=6), "hm_identity_mixed": dict(covers=["all added"], cost=6), "hm_identity_link": dict(covers=["all added"],cost=5), "hm_create_args": dict(covers=["two"])}, models=["vm"])])
PROPS["C06"] = dict(level="model_checking", units=[Unit("h_coll.cpp", {
  "hm_handles": dict(covers=["done"]), "hm_clone_rel": dict(covers=["slice"]), "hm_clone_link": dict(covers=["one end"])}, models=["vm"])])
PROPS["C12"] = dict(level="model_checking", units=[Unit("h_coll.cpp", {
  "hm_order": dict(covers=["same object"]), "hm_order_link": dict(covers=["done"]), "hm_objectid": dict(covers=["done"])}, models=["vm"])])
PROPS["C07"] = dict(level="model_checking", units=[Unit("h_coll.cpp", {
  "hm_history_hit": dict(covers=["collection destroyed"],cost=5), "hm_history_mixed": dict(covers=["collection destroyed"],cost=6), "hm_history_part": dict(covers=["collection destroyed"],cost=6),
   "hm_history_link": dict(covers=["collection destroyed"],cost=5), "hm_life_rel": dict(covers=["done"]), "hm_life_io": dict(covers=["done"])}, models=["vm"])])
PROPS["C08"] = dict(level="model_checking", units=[
  Unit("h_acc.cpp", {"hm_acc_set": dict(covers=["done"], cost=5), "hm_acc_ctor": dict(covers=["done"]), "hm_acc_rel": dict(covers=["done"], cost=9)}, models=["va"]),
  Unit("h_ext.cpp", {"hm_ext_set": dict(covers=["done"], cost=3), "hm_ext_rt": dict(covers=["done"], cost=8)}, models=["vm", "vx"])])
PROPS["C09"] = dict(level="model_checking", units=[Unit("h_link.cpp", {
  "hm_link_rt": dict(covers=["second round trip","missing target"], cost=9), "hm_link_iface_rt": dict(covers=["done"], cost=5), "hm_link_subset": dict(covers=["two"], cost=3),
  "hm_link_api": dict(covers=["done"]), "hm_link_iface_api": dict(covers=["done"])}, models=["vm"])])
PROPS["C10"] = dict(level="model_checking", units=[Unit("h_link.cpp", {
  "hm_nav": dict(covers=["full"], cost=5), "hm_nav_same": dict(covers=["two"], cost=5), "hm_nav_iface": dict(covers=["two"], cost=5)}, models=["vm"])])
PROPS["C11"] = dict(level="model_checking", units=[Unit("h_user.cpp", {
  "hm_user_i": dict(covers=["full"], cost=5), "hm_user_f": dict(covers=["full"], cost=5), "hm_user_ops": dict(covers=["done"], cost=9)}, models=[])])
PROPS["C13"] = dict(level="model_checking", units=[Unit("h_iface.cpp", {
  "hm_iface_value": dict(covers=["done"]), "hm_iface_order": dict(covers=["three"], cost=5), "hm_iface_life": dict(covers=["done"])}, models=["vm"])])
PROPS["C14"] = dict(level="model_checking", units=[Unit("h_frame.cpp", {
  "hm_put_get": dict(covers=["done"], cost=9), "hm_frame_null": dict(covers=["done"]), "hm_raw_clash": dict(covers=["done"], cost=4),"hm_raw_reuse": dict(covers=["done"], cost=2),"hm_raw_put": dict(covers=["done"], cost=4)}, models=["vm"])])
PROPS["C15"] = dict(level="model_checking", units=[Unit("h_frame.cpp", {
  "hm_lazy": dict(covers=["done"], cost=9), "hm_rewrite": dict(covers=["done"], cost=8)}, models=["vm"])])
PROPS["C16"] = dict(level="model_checking", units=[Unit("h_conc.cpp", {
  "hm_conc_get": dict(covers=["done"], cost=9, preempt=2), "hm_conc_put_get": dict(covers=["done"], cost=8, preempt=2), "hm_conc_put_put": dict(covers=["done"], cost=8, preempt=2),
  "hm_conc_dup": dict(covers=["done"], preempt=3), "hm_conc_write": dict(covers=["done"], preempt=2),"hm_conc_frames": dict(covers=["done"], preempt=2),
  }, models=["vm"], threads=True)])
PROPS["C18"] = dict(level="model_checking", units=[Unit("h_conc.cpp", {
  "hm_conc_params": dict(covers=["done"], cost=9, preempt=2), "hm_conc_table": dict(covers=["done"], preempt=3), 
  "hm_conc_handles": dict(covers=["done"], preempt=2, cost=4),"hm_conc_drop": dict(covers=["done"], preempt=4),
  }, models=["vm"], threads=True)])
PROPS["C17"] = dict(level="model_checking", units=[Unit("h_params.cpp", {
  "hm_par_int": dict(covers=["done"], cost=5), "hm_par_float": dict(covers=["done"], cost=5), "hm_par_double": dict(covers=["done"], cost=5), "hm_par_string": dict(covers=["done"], cost=9),
  "hm_par_keys": dict(covers=["same name", "different names"]), "hm_par_io": dict(covers=["done"])})])
PROPS["C19"] = dict(level="model_checking", units=[Unit("h_idtable.cpp", {
  "hm_add": dict(covers=["same", "different"], cost=5), "hm_add_pos": dict(covers=["different"], cost=6), "hm_add_long": dict(covers=["done"]), "hm_from": dict(covers=["done"])})])
PROPS["C20"] = dict(level="model_checking", units=[Unit("h_evo.cpp", {
  "hm_evolve": dict(covers=["evolved", "not evolved"], cost=5), "hm_evolve_known": dict(covers=["done"])}, models=["vm"])])
PROPS["C21"] = dict(level="model_checking", units=[Unit("h_evogen.cpp", {
  "hm_evo_track1": dict(covers=["two"], cost=9), "hm_evo_track2": dict(covers=["two"], cost=9), "hm_evo_renamed": dict(covers=["done"], cost=4), "hm_evo_subset": dict(covers=["done"]),
  "hm_evo_same": dict(covers=["done"]), "hm_evo_dict": dict(covers=["done"]), "hm_evo_defs": dict(covers=["done"])}, models=["evnew"])])
PROPS["C22"] = dict(level="model_checking", units=[Unit("h_evo.cpp", {
  "hm_factory": dict(covers=["done"], cost=5), "hm_factory_known": dict(covers=["done"]), "hm_factory_user": dict(covers=["done"])}, models=["vm"])])
PROPS["C23"] = dict(level="model_checking", units=[Unit("h_reg.cpp", {
  "hm_registry": dict(covers=["done"], cost=5), "hm_registry_names": dict(covers=["done"]), "hm_collector": dict(covers=["done"]), "hm_holder": dict(covers=["done"])}, models=["vm"])])
PROPS["C24"] = dict(level="model_checking", units=[Unit("h_reg.cpp", {
  "hm_version": dict(covers=["done"], cost=5), "hm_version_const": dict(covers=["done"])}, models=["vm"])])
PROPS["C25"] = dict(level="model_checking", units=[Unit("h_misc.cpp", {
  "hm_glob": dict(covers=["pattern", "no pattern"], cost=5), "hm_split": dict(covers=["done"]), "hm_sort": dict(covers=["done"], cost=9), "hm_keymap": dict(covers=["done"])})])
PROPS["C26"] = dict(level="model_checking", units=[Unit("h_json.cpp", {
  "hm_json_multi": dict(covers=["full"], cost=5), "hm_json_rel": dict(covers=["done"], cost=9), "hm_json_vecs": dict(covers=["full"], cost=6), "hm_json_link": dict(covers=["full"], cost=5)},
  models=["vm"], cdefines=["PODIO_JSON_OUTPUT"])])

SIO = ["PODIO_ENABLE_SIO=1"]
PROPS["C37"] = dict(level="model_checking", units=[Unit("h_sio.cpp", {
  "hm_sio_data": dict(covers=["full"], cost=9), "hm_sio_rel": dict(covers=["second file", "done"], cost=9), "hm_sio_user": dict(covers=["all"]), "hm_sio_params": dict(covers=["done"], cost=5)},
  models=["vs"], cdefines=SIO)])
PROPS["C38"] = dict(level="model_checking", units=[Unit("h_sio.cpp", {
  "hm_sio_file": dict(covers=["done", "beyond the end"], cost=9), "hm_sio_limit": dict(covers=["refused", "read"], cost=9), "hm_sio_open": dict(covers=["done"])},
  models=["vs"], cdefines=SIO)])
PROPS["C40"] = dict(level="model_checking", units=[Unit("h_root.cpp", {
  "hm_tree_data": dict(covers=["full"], cost=9), "hm_tree_rel": dict(covers=["second file", "done"], cost=9), "hm_tree_user": dict(covers=["all"]), "hm_tree_params": dict(covers=["done"], cost=5),
  "hm_tree_file": dict(covers=["done", "beyond the end"], cost=9), "hm_tree_limit": dict(covers=["refused", "read"], cost=9), "hm_tree_open": dict(covers=["done"]),
  "hm_tree_consistent": dict(covers=["done", "refused"], cost=9), "hm_tree_chain": dict(covers=["done", "second file"], cost=9), "hm_root_names": dict(covers=["same", "different"])}, models=["vr"])])
PROPS["C41"] = dict(level="model_checking", units=[Unit("h_root.cpp", {
  "hm_ntuple_data": dict(covers=["full"], cost=9), "hm_ntuple_rel": dict(covers=["second file", "done"], cost=9), "hm_ntuple_user": dict(covers=["all"]), "hm_ntuple_params": dict(covers=["done"], cost=5),
  "hm_ntuple_file": dict(covers=["done", "beyond the end"], cost=9), "hm_ntuple_limit": dict(covers=["refused", "read"], cost=9), "hm_ntuple_open": dict(covers=["done"]),
  "hm_ntuple_consistent": dict(covers=["done", "refused"], cost=9), "hm_ntuple_chain": dict(covers=["done", "second file"], cost=9)}, models=["vr"])])
PROPS["C42"] = dict(level="model_checking", units=[Unit("h_root.cpp", {
  "hm_tree_old": dict(covers=["by index", "by name"], cost=5), "hm_tree_legacy": dict(covers=["oldest", "done", "second file", "beyond the end"], cost=9)}, models=["vr"]), Unit("h_sio.cpp", {
  "hm_sio_legacy": dict(covers=["with contents", "without contents", "beyond the end"], cost=9)}, models=["vs"], cdefines=SIO)])
PROPS["C43"] = dict(level="model_checking", units=[
  Unit("h_rds.cpp", {"hm_rds_loops": dict(covers=["refused", "done"], cost=9), "hm_rds_ranges": dict(covers=["done"], cost=5), "hm_rds_create": dict(covers=["done"])}),
  Unit("h_rds.cpp", {"hm_rds_slots": dict(covers=["done"], preempt=2)}, threads=True)])
PROPS["C44"] = dict(level="model_checking", units=[
  Unit("h_dump.cpp", {"hm_dump_entries": dict(covers=["refused", "range"], cost=9), "hm_dump_number": dict(covers=["number"], cost=5), "hm_dump_args": dict(covers=["all"], cost=9), "hm_dump_usage": dict(covers=["done"])}, models=["vm"])])
PROPS["C39"] = dict(level="model_checking", units=[Unit("h_front.cpp", {
  "hm_front_reader": dict(covers=["missing", "read"], cost=5), "hm_front_writer": dict(covers=["done"]), "hm_make_reader": dict(covers=["made", "refused"], cost=9), "hm_make_writer": dict(covers=["made", "refused"])})])

PROPS["C27"] = dict(level="model_checking", python={"h_schema": {
  "h_compare_members": dict(covers=["several"], cost=30), "h_compare_types": dict(covers=["all different"]), "h_judge_rename": dict(covers=["renamed", "undeclared"], cost=25),
  "h_judge_types": dict(covers=["forbidden", "allowed"]), "h_judge_unsupported": dict(covers=["several"]), "h_judge_datatypes": dict(covers=["two renamed", "declared"]),
  "h_judge_components": dict(covers=["several"]), "h_judge_two": dict(covers=["renamed", "potential"]),
  "h_judge_ambiguous": dict(covers=["one", "two"]), "h_judge_signature": dict(covers=["renamed", "different"], cost=18), "h_texts": dict(covers=["change", "warning", "error"]), "h_report": dict(covers=["good", "bad"])}})
PROPS["C28"] = dict(level="model_checking", python={"h_model": {e: dict(covers=["accepted", "refused"], cost=c) for e, c in
  dict(h_components=4, h_datatypes=3, h_datatype_keys=1, h_clashes=15, h_interfaces=9, h_links=8, h_version=1).items()}, "h_gen": {"h_nested": dict(covers=["accepted", "refused"])}})
PROPS["C29"] = dict(level="model_checking", python={"h_members": {
  "h_parse": dict(covers=["everything", "array"], cost=8), "h_parse_type": dict(covers=["builtin", "namespace"], cost=3), "h_parse_rest": dict(covers=["default value", "braces"], cost=40),
  "h_parse_bare": dict(covers=["accepted", "rejected"]), "h_reject_tail": dict(covers=["accepted", "rejected"], cost=9), "h_reject_head": dict(covers=["accepted", "rejected"], cost=5), "h_reject_nested": dict(covers=["accepted", "rejected"]), "h_json": dict(covers=["default"], cost=5)}})
PROPS["C30"] = dict(level="model_checking", python={"h_model": {"h_stored": dict(covers=["component", "members", "extra code", "options"], cost=30, parts=4)}, "h_members": {"h_json": dict(covers=["default"], cost=5)}})
PROPS["C31"] = dict(level="model_checking", python={"h_model": {"h_migrations": dict(covers=["accepted", "refused"], cost=12), "h_parse_version": dict(covers=["accepted", "refused"])}})
PROPS["C32"] = dict(level="model_checking", python={"h_gen": {"h_includes": dict(covers=["component", "vector member", "relation", "interface", "own type"], cost=30), "h_component_includes": dict(covers=["component"], cost=11),
  "h_link_includes": dict(covers=["interface", "collection"], cost=17), "h_files": dict(covers=["all", "some"], cost=3)}})
PROPS["C33"] = dict(level="model_checking", python={"h_gen": {"h_rules": dict(covers=["renamed", "refused", "two names"], cost=20, parts=8), "h_renamed_types": dict(covers=["renamed", "two names"], cost=15, parts=4),
  "h_changed_types": dict(covers=["accepted", "refused"], cost=2)}})
PROPS["C34"] = dict(level="model_checking", python={"h_gen": {"h_arrow": dict(covers=["struct", "value"], cost=15)}})
PROPS["C35"] = dict(level="model_checking", python={"h_julia": {"h_julia_types": dict(covers=["done"]), "h_julia_order": dict(covers=["nested"], cost=20, parts=6), "h_julia_relations": dict(covers=["parameters", "none"], cost=10, parts=2)}})
PROPS["C36"] = dict(level="model_checking", python={"h_files": {"h_update": dict(covers=["changes", "no changes", "dry run"])}})

PROPS["C45"] = dict(level="model_checking", python={"h_bindings": {
  "h_parameters": dict(covers=["stored", "list", "refused", "value", "ambiguous"], cost=5), "h_put_twice": dict(covers=["value", "list", "ambiguous"], cost=25, parts=1), "h_collections": dict(covers=["put", "any", "empty", "refused"]),
  "h_no_data": dict(covers=["done"]), "h_small": dict(covers=["navigator", "no links", "version", "paths"])}})
PROPS["C46"] = dict(level="model_checking", python={"h_bindings": {
  "h_iterate": dict(covers=["stop", "all", "no entry", "entry", "missing"], cost=5), "h_readers": dict(covers=["frames", "legacy", "refused"]), "h_formats": dict(covers=["refused"]), "h_writers": dict(covers=["written"]),
  "h_merge_sio": dict(covers=["no frames", "frames", "metadata first", "metadata all", "twice"], cost=18, parts=1), "h_merge_root": dict(covers=["frames", "no frames", "metadata first", "metadata all"], cost=7),
  "h_convert": dict(covers=["to rntuple", "back"])}})

for c in CLAIMS:
    if c["id"] in PROPS:
        PROPS[c["id"]]["bounds"] = c["bounds"]
        PROPS[c["id"]].setdefault("assumptions", list(c["assumptions"]))
