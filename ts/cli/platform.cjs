"use strict";
module.exports = { Platform: {} };
