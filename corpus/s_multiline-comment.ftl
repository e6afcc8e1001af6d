
# This is
#
# An example of a multiline comment

key = Value
