SPECIFICATION SSpec
INVARIANTS StoredIfWritable SameText ConfigsGivenOrFound RefersBack OnceEach Reproduces
CHECK_DEADLOCK FALSE
