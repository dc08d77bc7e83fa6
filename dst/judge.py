"""Oracles: what a recorded history must satisfy, property by property.

The reference for every answer is the same query on the same argument values
executed alone in a pristine process of the same code.
"""
import json

ALL = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10',
       'C11', 'C12')
# properties for which answers have to equal those of reference executions
ANSWERS = {'C01', 'C02', 'C03', 'C05', 'C06', 'C08', 'C09', 'C10',
           'C11'}
EVENTS = {'write': {'C04'}, 'context': {'C05'}, 'ambient': {'C05'},
          'after-failure': {'C02'}, 'no-progress': ANSWERS,
          'deadlock': {'C01', 'C03', 'C05', 'C06', 'C08', 'C09', 'C11'},
          'child': {'C11'}, 'starved': {'C08'}}


class HarnessError(Exception):
    pass


def slack(steps):
    return 24 + steps // 50


def judge(prop, scenario, report, solo):
    """Violations of the property in a report of a simulated run.

    ``solo(record)`` gives the reference execution of a recorded query.
    """
    if 'hang' in report:
        return [{'kind': 'hang', 'detail': 'the run did not finish'}]
    if 'blocked' in report:
        return [{'kind': 'blocked',
                 'detail': 'all threads wait for something outside of the '
                           'simulation, forever'}]
    if 'crash' in report:
        return [{'kind': 'crash', 'detail': 'the process died, status %s'
                                            % report['crash']}]
    result = []
    for event in report['events']:
        if event['kind'] == 'harness':
            raise HarnessError(event['detail'])
        if prop in EVENTS[event['kind']]:
            result.append({'kind': event['kind'], 'detail': event['detail'],
                           'query': event['query'], 'step': event['step']})
    for key, record in report['records']:
        if record['spec'] is None:
            if prop == 'C05':
                result.append({'kind': 'context', 'query': key,
                               'detail': 'ambient context is a foreign one'})
            continue
        if prop == 'C12':
            found = performed(record, solo(record))
            if found:
                result.append({'kind': 'operations', 'query': key,
                               'detail': record['op'] + ' ' + found})
            continue
        if 'injected' in record:
            if prop == 'C02' and not record['same']:
                result.append({
                    'kind': 'error-replaced', 'query': key,
                    'detail': 'injected %s, but the caller of %s got %s'
                              % (record['injected'], record['op'],
                                 record['outcome'])})
            if not record.get('natural'):
                continue
        if prop not in ANSWERS:
            continue
        reference = solo(record)
        if reference is None:
            continue
        if (record.get('stack') is not None
                and record['outcome'][:2] == ['err', 'RecursionError']):
            continue
        if record['outcome'] != reference['outcome']:
            result.append({
                'kind': 'outcome', 'query': key,
                'detail': '%s gives %s, alone in a fresh process %s'
                          % (record['op'], record['outcome'],
                             reference['outcome'])})
        if prop in ('C08', 'C03') and record.get('stack') is None:
            limit = reference['steps']
            if record['steps'] > limit + slack(limit):
                result.append({
                    'kind': 'more-steps', 'query': key,
                    'detail': '%s takes %d steps, alone %d'
                              % (record['op'], record['steps'], limit)})
            elif record['prims'] > reference['prims']:
                result.append({
                    'kind': 'more-operations', 'query': key,
                    'detail': '%s performs %d context operations, alone %d'
                              % (record['op'], record['prims'],
                                 reference['prims'])})
        if prop == 'C08':
            if record['waits'] > reference['waits']:
                result.append({
                    'kind': 'waits', 'query': key,
                    'detail': '%s waited %d time(s) for another caller'
                              % (record['op'], record['waits'])})
            if record['sleeps'] > reference['sleeps']:
                result.append({
                    'kind': 'sleeps', 'query': key,
                    'detail': '%s sleeps %d time(s), alone %d'
                              % (record['op'], record['sleeps'],
                                 reference['sleeps'])})
    if prop == 'C07':
        for item in report.get('left', ()):
            result.append({'kind': 'left', 'detail': item})
    return result


def performed(record, reference):
    """How context operations of the query differ from those of the
    reference."""
    if reference is None:
        return None
    actual, expected = record['oplog'], reference['oplog']
    index = next((index
                  for index, (left, right) in enumerate(zip(actual, expected))
                  if left != right),
                 min(len(actual), len(expected)))
    if index < len(actual):
        return 'performs %s as operation %d, alone %s' % (
            actual[index], index + 1,
            expected[index] if index < len(expected) else 'no more')
    if index < len(expected) and not (
            'injected' in record and not record.get('natural')
            or record.get('stack') is not None):
        return 'performs %d operations, alone %d' % (index, len(expected))
    return None


def kinds(violations):
    return sorted({violation['kind'] for violation in violations})


def solo_key(record, universe):
    return json.dumps([record['op'], record['lits'], record['spec'],
                       record['explicit'],
                       universe.get('hooked'), universe.get('sequence'),
                       universe.get('shared_points'),
                       universe.get('oplog')], sort_keys=True)
