err01 = Value
    .2 = Foo
