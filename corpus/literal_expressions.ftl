string-expression = {"abc"}
number-expression = {123}
number-expression = {-3.14}
