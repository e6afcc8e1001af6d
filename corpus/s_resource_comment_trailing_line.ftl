### This is a comment
### This comment is multiline
###
