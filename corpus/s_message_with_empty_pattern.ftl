### BE CAREFUL WHEN EDITING THIS FILE
###
### The last character in this file is the equals sign in `key5 =` in line 18.
### We want to test a message with no value and with no EOL after its
### identifier. Most editors automatically add a trailing newline at EOF.
### If you edit this file make sure to turn this behavior off.

key1 =

key2 = 

key3 =
    .attr = Attr

key4 = 
    .attr = Attr

key5 =