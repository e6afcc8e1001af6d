err01 = { BUILTIN(key: "
 text
    ") }
