"use strict";
module.exports = require("../standins/base.cjs").open({}, "a package the command line tool uses");
