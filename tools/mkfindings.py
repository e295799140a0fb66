#!/usr/bin/env python3
"""Writes known_findings.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
    ("C21", "2e5193b", "Update persisted the values that were rejected instead of the accepted ones"),
    ("C21", "2872021", "BatchUpdate dropped accepted entries when persisting and ignored the save error"),
    ("C22", "a85e51e", "an Update racing DeregisterKey left a value behind that no key owned"),
    ("C24", "9e310a2", "memory and persisted copy diverged for ever under concurrent changes and loads"),
    ("C08", "04dc132", "Receiver.Close panicked when the bus or anybody else had closed it, and closed another receiver that had taken its name"),
    ("C08", "89027a0", "closing a Block receiver the dispatcher was blocked on deadlocked the whole bus"),
    ("C09", "01898e5", "CollectTimeout on a closed receiver collected nils without end until the timeout"),
    ("C15", "db6cc30", "fixed window boundaries were computed in floating point: windows of the wrong length"),
    ("C17", "e07688a", "the atomic token bucket issued a second twice, and both credited the time they were full"),
    ("C17", "64dfab6", "the atomic token bucket let requests take old tokens while new ones were being added: more than capacity at once"),
    ("C18", "64dfab6", "the atomic token bucket refused requests while the tokens due were being added"),
    ("C18", "e07688a", "after the wall clock was set back no token was issued until it caught up"),
    ("C18", "c9c0103", "with a rate or capacity near the largest integer (no limit) the number of tokens overflowed and the bucket refused everything"),
    ("C14", "7142acd", "a task that could not be started stayed registered and blocked its name"),
    ("C19", "815a224", "IsBlocked ignored the hash tag and asked another key than ShouldBlock had written"),
    ("C19", "069f5fc", "a blocked result had ttl 0 in the last half second of the timeout"),
    ("C19", "16fb5f0", "the pass list expired within the window when 2*timeout < window: more than capacity requests passed"),
    ("C20", "8b02329", "after Redis lost its script cache every request passed for ever"),
    ("C26", "90de765", "commands crashed with a nil dereference when no span could be created, or used a span of the caller"),
    ("C27", "3b5f2dd", "the fasthttp-routing middleware swallowed the handlers' errors"),
    ("C28", "186649a", "a null in the yaml file detached fields from environment variables and flags and left nil pointers"),
    ("C34", "c42ecb5", "the fasthttp-routing pprof handler refused passwords that contain a colon"),
    ("C36", "65f837e", "the PostgreSQL DSN did not escape user, password and database (other credentials or database used, or none), and options with commas lost all but one value"),
    ("C37", "d3e06ca", "with SslTrustMode CUSTOM the configured certificates were ignored and the system's roots trusted, unless a client certificate was configured"),
    ("C38", "d0d8e92", "MaxConnsPerHost was taken as the number of idle connections per host, MaxIdleConnsPerHost as that of all hosts, and connections were not limited"),
]
out = [dict(property=p, fixed="fixed: property=%s %s %s" % (p, c, w), what=w) for p, c, w in F]
json.dump(dict(findings=out), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
