import bindings_stub as S
S.install()
from podio.frame import Frame
f = Frame()
f.put_parameter("x", 1)
f.put_parameter("x", "text")
try:
    ok = f.get_parameter("x", as_type="str") == "text" and f.get_parameter("x", as_type="int") == 1 and f.get_param_info("x") == {"int": 1, "std::string": 1}
except ValueError as e:
    ok = False
ok or S.fail("the parameter is not found with both types")
