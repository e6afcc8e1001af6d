# This is a comment with no new line