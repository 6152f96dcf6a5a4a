module vck

go 1.23
