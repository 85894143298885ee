"use strict";
// confirmation prompts are answered by the test
/* global CLI */
module.exports = require("../standins/base.cjs").open({
  createInterface: () => ({
    question: (p, o, cb) => (typeof o === "function" ? o : cb)(CLI.answer(p)),
    close() {}, on() {}, once() {},
  }),
}, "readline");
