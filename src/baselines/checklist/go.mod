module checklist

go 1.21
