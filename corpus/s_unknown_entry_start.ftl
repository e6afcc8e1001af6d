
8err = Foo
