foo = Foo
