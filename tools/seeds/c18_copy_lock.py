prop = "C18"
edits = [("src/GenericParameters.cc", """  std::scoped_lock lock(intMtx, floatMtx, stringMtx, doubleMtx);
  _intMap = other._intMap;
  _floatMap = other._floatMap;
  _stringMap = other._stringMap;
  _doubleMap = other._doubleMap;
""", """  {
    std::scoped_lock lock(intMtx, floatMtx, doubleMtx);
    _intMap = other._intMap;
    _floatMap = other._floatMap;
    _stringMap = other._stringMap;
    _doubleMap = other._doubleMap;
  }
  std::lock_guard lock(stringMtx);
""")]
needs = "one thread copies the parameters (as reading and writing do) while another one sets a string parameter"
breaks = "the string parameters are copied without holding their lock: a data race that can corrupt the copy"
env = 'DEMO_FLAGS="-fsanitize=thread"\nexport TSAN_OPTIONS="halt_on_error=1 exitcode=66"'
