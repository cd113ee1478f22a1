module verif/harness

go 1.23

require yunion.io/x/jsonutils v0.0.0

replace yunion.io/x/jsonutils => /repo
