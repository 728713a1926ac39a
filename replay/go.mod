module gosbreplay

go 1.20

require github.com/miniLCT/gosb v0.0.0

replace github.com/miniLCT/gosb => /repo
