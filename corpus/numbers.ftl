int-zero = {0}
int-positive = {1}
int-negative = {-1}
int-negative-zero = {-0}

int-positive-padded = {01}
int-negative-padded = {-01}
int-zero-padded = {00}
int-negative-zero-padded = {-00}

float-zero = {0.0}
float-positive = {0.01}
float-positive-one = {1.03}
float-positive-without-fraction = {1.000}

float-negative = {-0.01}
float-negative-one = {-1.03}
float-negative-zero = {-0.0}
float-negative-without-fraction = {-1.000}

float-positive-padded-left = {01.03}
float-positive-padded-right = {1.0300}
float-positive-padded-both = {01.0300}

float-negative-padded-left = {-01.03}
float-negative-padded-right = {-1.0300}
float-negative-padded-both = {-01.0300}


## ERRORS

err01 = {1.}
err02 = {.02}
err03 = {1.02.03}
err04 = {1. 02}
err05 = {1 .02}
err06 = {- 1}
err07 = {1,02}
