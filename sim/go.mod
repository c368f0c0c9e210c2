module verif/sim

go 1.27

require github.com/juju/worker/v4 v4.0.0

replace github.com/juju/worker/v4 => /repo
