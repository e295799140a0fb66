module xform

go 1.21
