-foo =
    .attr = Attribute

-bar =

-baz
