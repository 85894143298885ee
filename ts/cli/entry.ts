// @ts-nocheck
import "REPO-CLI";
export * as configuration from "REPO-CLI-CONFIG";
