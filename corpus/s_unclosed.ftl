err01 = {
key02 = Value 02

err03 = {
FUNC(
arg
,
namedArg: "Value"
,
key04 = Value 04
)
}
