module glsim

go 1.27
