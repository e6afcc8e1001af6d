key1 =
    { foo }

key2 =
    Foo { foo }

key3 =
    { foo } Foo
