"use strict"; module.exports = {};
