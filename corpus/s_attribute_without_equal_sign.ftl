key = Value
    .label
